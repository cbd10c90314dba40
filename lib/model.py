"""Executable reference model of multilayer and multiplex networks: plain sets and dictionaries.

Node-layers are tuples (node, layer_1, ..., layer_d); links are ordered pairs of node-layers.
"""
import itertools
from lib import warm


def interleave(nl1, nl2):
    out = []
    for a, b in zip(nl1, nl2):
        out += [a, b]
    return tuple(out)


class Ref(object):
    def __init__(self, aspects, directed=False, noEdge=0, full=True, couplings=None):
        """couplings None: general network. Otherwise a list with one entry per aspect:
        ('categorical',w) / ('ordinal',w) / ('none',) / ('network', {(a,b): w}, layers)"""
        self.aspects, self.directed, self.noEdge = aspects, directed, noEdge
        self.full = full or aspects == 0
        self.couplings = couplings
        self.nodes = set()
        self.layers = [set() for _ in range(aspects)]
        self.nls = set()
        self.w = {}

    def copy(self):
        r = Ref(self.aspects, self.directed, self.noEdge, self.full, self.couplings)
        r.nodes = set(self.nodes)
        r.layers = [set(l) for l in self.layers]
        r.nls = set(self.nls)
        r.w = dict(self.w)
        return r

    # ---- construction
    def add_node(self, node, layer=None):
        self.nodes.add(node)
        if layer is not None and not self.full:
            layer = tuple(layer)
            for a, l in enumerate(layer):
                self.layers[a].add(l)
            self.nls.add((node,) + layer)

    def add_layer(self, layer, aspect=1):
        if aspect == 0:
            self.nodes.add(layer)
        else:
            self.layers[aspect - 1].add(layer)

    def set(self, n1, n2, val):
        for n in (n1, n2):
            self.nodes.add(n[0])
            for a, l in enumerate(n[1:]):
                self.layers[a].add(l)
            if not self.full:
                self.nls.add(n)
        if val == self.noEdge:
            self.w.pop((n1, n2), None)
            if not self.directed:
                self.w.pop((n2, n1), None)
        else:
            self.w[(n1, n2)] = val
            if not self.directed:
                self.w[(n2, n1)] = val

    # ---- structure
    def all_layers(self):
        return list(itertools.product(*self.layers))

    def node_layers(self):
        if self.full:
            return set(itertools.product(self.nodes, *self.layers))
        return set(self.nls)

    def exists(self, nl):
        if self.full:
            return nl[0] in self.nodes and all(l in s for l, s in zip(nl[1:], self.layers))
        return nl in self.nls

    # ---- links (explicit ones and coupling ones)
    def coupling(self, n1, n2):
        """Weight of the coupling link, or noEdge."""
        diff = [a for a in range(1, self.aspects + 1) if n1[a] != n2[a]]
        if n1[0] != n2[0] or len(diff) != 1 or not self.exists(n1) or not self.exists(n2):
            return self.noEdge
        a = diff[0]
        c = self.couplings[a - 1]
        if c[0] == "categorical":
            return c[1]
        if c[0] == "ordinal":
            return c[1] if abs(n1[a] - n2[a]) == 1 else self.noEdge
        if c[0] == "network":
            return c[1].get((n1[a], n2[a]), self.noEdge)
        return self.noEdge

    def link(self, n1, n2):
        if (n1, n2) in self.w:
            return self.w[(n1, n2)]
        if self.couplings is not None:
            return self.coupling(n1, n2)
        return self.noEdge

    def links(self):
        """All ordered links {(nl1,nl2): w}, coupling links included."""
        out = dict(self.w)
        if self.couplings is not None:
            byn = {}
            for nl in self.node_layers():
                byn.setdefault(nl[0], []).append(nl)
            for l in byn.values():
                for a in l:
                    for b in l:
                        if a != b:
                            c = self.coupling(a, b)
                            if c != self.noEdge:
                                out[(a, b)] = c
        return out


class Index(object):
    """Neighbourhoods computed from a set of ordered links."""

    def __init__(self, ref):
        self.ref = ref
        self.L = ref.links()
        self.out, self.inn = {}, {}
        for (a, b), w in self.L.items():
            self.out.setdefault(a, {})[b] = w
            self.inn.setdefault(b, {})[a] = w

    def neigh(self, nl, direction, dims=None):
        """direction in out/in/tot; dims: tuple with None for free entries."""
        s = set()
        if direction in ("out", "tot"):
            s |= set(self.out.get(nl, ()))
        if direction in ("in", "tot"):
            s |= set(self.inn.get(nl, ()))
        if dims is not None:
            s = {n for n in s if all(d is None or d == x for d, x in zip(dims, n))}
        return s

    def strength(self, nl, direction, dims=None):
        f = lambda n: dims is None or all(d is None or d == x for d, x in zip(dims, n))
        o = [w for n, w in self.out.get(nl, {}).items() if f(n)]
        i = [w for n, w in self.inn.get(nl, {}).items() if f(n)]
        if not self.ref.directed:
            return sum(o)
        return sum({"out": o, "in": i, "tot": o + i}[direction])

    def edges(self):
        """Multiset-free expected edge set: directed -> ordered pairs, undirected -> frozensets."""
        if self.ref.directed:
            return {(a, b): w for (a, b), w in self.L.items()}
        return {frozenset((a, b)): w for (a, b), w in self.L.items()}


# ------------------------------------------------------------------ real network from a reference
def key(net_or_aspects, nl):
    """Index for net[...] selecting a node-layer."""
    return nl[0] if len(nl) == 1 else nl


def read(net, n1, n2):
    return net[interleave(n1, n2)]


def lay(layer):
    """Layer argument as the public API expects it."""
    return layer[0] if len(layer) == 1 else tuple(layer)


def build(pm, ref, order=None, couplings=None):
    """A real network with the content of ref (order: list of links to set, for insertion order)."""
    if ref.couplings is None:
        net = pm.MultilayerNetwork(aspects=ref.aspects, noEdge=ref.noEdge, directed=ref.directed,
                                   fullyInterconnected=ref.full)
    else:
        net = pm.MultiplexNetwork(couplings=couplings if couplings is not None
                                  else real_couplings(pm, ref),
                                  noEdge=ref.noEdge, directed=ref.directed,
                                  fullyInterconnected=ref.full)
    order = order if order is not None else list(ref.w)
    used = warm.RNG is not None and ref.w and warm.RNG.random() < warm.SHARE
    if used:  # the network is looked at with some of its links, and with wrong weights, before it is complete
        warm.USED[0] += 1
        ws = [w for _, w in sorted(ref.w.items(), key=repr)]
        for (a, b) in order:
            if warm.RNG.random() < 0.6:
                net[interleave(a, b)] = warm.RNG.choice(ws)
        warm.use(pm, net, ref)
    for n in ref.nodes:
        net.add_node(n)
    for a, ls in enumerate(ref.layers):
        for l in ls:
            net.add_layer(l, a + 1)
    if not ref.full:
        for nl in ref.nls:
            net.add_node(nl[0], layer=lay(nl[1:]))
    if used and warm.RNG.random() < 0.3:
        warm.use(pm, net, ref)
    elif used:  # complete, except that one link is somewhere else or weights are exchanged: all the numbers are the final ones
        moved = almost(ref, order, warm.RNG)
        for (a, b), w in moved.items():
            net[interleave(a, b)] = w
        warm.use(pm, net, ref)
        for (a, b) in moved:
            if (a, b) not in ref.w:
                net[interleave(a, b)] = ref.noEdge
    for (a, b) in order:
        net[interleave(a, b)] = ref.w[(a, b)]
    return net


def almost(ref, order, rng):
    """The links of the network with one of them moved to another place, or with their weights exchanged."""
    w = {e: ref.w[e] for e in order}
    if not w:
        return w
    if rng.random() < 0.5:
        ws = list(w.values())
        rng.shuffle(ws)
        if rng.random() < 0.3:
            ws[0] = 3 if ws[0] != 3 and ref.noEdge != 3 else 4
        return dict(zip(w, ws))
    a, b = rng.choice(sorted(w, key=repr))
    names = sorted(ref.nodes, key=repr)
    places = [((n,) + a[1:], (m,) + b[1:]) for n in names for m in names]
    places = [(x, y) for x, y in places if x != y and (ref.full or (x in ref.nls and y in ref.nls))
              and (x, y) not in ref.w and (ref.directed or (y, x) not in ref.w)]
    if ref.couplings is not None:
        places = [(x, y) for x, y in places if x[1:] == y[1:]]
    if places:
        w[rng.choice(places)] = w.pop((a, b))
    return w


def real_couplings(pm, ref):
    out = []
    for c in ref.couplings:
        if c[0] == "network":
            n = pm.MultilayerNetwork(aspects=0, directed=ref.directed, noEdge=ref.noEdge)
            for l in c[2]:
                n.add_node(l)
            for (a, b), w in c[1].items():
                n[a, b] = w
            out.append(n)
        elif c[0] == "none":
            out.append(("none", 1.0) if len(c) > 1 else "none")
        else:
            out.append((c[0], c[1]))
    return out


# ------------------------------------------------------------------ observation through the API
def structure(net):
    """Everything the iterators say: nodes, layers per aspect, node-layers, explicit edge set."""
    nls = list(net.iter_node_layers())
    return {"nodes": sorted(map(repr, net)), "layers": [sorted(map(repr, net.get_layers(a)))
                                                       for a in range(1, net.aspects + 1)],
            "nls": sorted(map(repr, nls)), "edges": sorted(map(repr, edge_set(net).items())),
            "conf": (type(net).__name__, net.aspects, net.directed, repr(net.noEdge),
                     net.fullyInterconnected)}


def split(edge, aspects):
    """Edge tuple of net.edges -> (nl1, nl2, w)"""
    return edge[0:-1:2], edge[1:-1:2], edge[-1]


def edge_set(net):
    out = {}
    for e in net.edges:
        a, b, w = split(e, net.aspects)
        out[(a, b) if net.directed else frozenset((a, b))] = w
    return out


def compare(cx, net, ref, mech, rng=None, links=True, maxpairs=2500, nodes=True):
    """Monitor: the real network has exactly the content of the reference."""
    cx.eq(mech + ":aspects", net.aspects, ref.aspects)
    cx.eq(mech + ":directed", bool(net.directed), bool(ref.directed))
    cx.eq(mech + ":full", bool(net.fullyInterconnected), bool(ref.full))
    cx.eq(mech + ":noEdge", net.noEdge, ref.noEdge)
    if nodes:
        l = list(net)
        cx.eq(mech + ":nodes", (set(l), len(l), len(net)),
              (ref.nodes, len(ref.nodes), len(ref.nodes)), "nodes")
        for a in range(ref.aspects):
            cx.eq(mech + ":layers", set(net.get_layers(a + 1)), ref.layers[a], "layers of aspect %d" % (a + 1))
        l = list(net.iter_node_layers())
        want = ref.node_layers()
        cx.eq(mech + ":nodelayers", (set(l), len(l)), (want, len(want)), "node-layers")
    if nodes and hasattr(net, "A"):          # the view of every layer of a multiplex network
        keys = {(k,) if ref.aspects == 1 else k: net.A[k] for k in net.A}
        cx.eq(mech + ":layernets", set(keys), set(itertools.product(*ref.layers)), "keys of .A")
        for k, a in keys.items():
            l = list(a)
            want = ref.nodes if ref.full else {nl[0] for nl in ref.nls if nl[1:] == k}
            cx.eq(mech + ":layernodes", (set(l), len(l)), (want, len(want)), "nodes of layer %r" % (k,))
            if links:
                got = edge_set(a)
                want = {}
                for (x, y), w in ref.w.items():
                    if x[1:] == y[1:] == k:
                        want[(x[:1], y[:1]) if ref.directed else frozenset((x[:1], y[:1]))] = w
                cx.eq(mech + ":layeredges", got, want, "links of layer %r" % (k,))
    if links:
        ix = Index(ref)
        got = []
        for e in net.edges:
            a, b, w = split(e, ref.aspects)
            got.append(((a, b) if ref.directed else frozenset((a, b)), w))
        want = ix.edges()
        gd = dict(got)
        cx.eq(mech + ":edges", (set(gd), len(got)), (set(want), len(want)), "set of edges")
        for k in want:
            cx.eq(mech + ":weight", gd[k], want[k], "weight of %r" % (k,))
        nls = sorted(ref.node_layers(), key=repr)
        pairs = len(nls) ** 2
        if pairs <= maxpairs or rng is None:
            it = ((a, b) for a in nls for b in nls)
        else:
            it = [(rng.choice(nls), rng.choice(nls)) for _ in range(maxpairs)]
        n = 0
        for a, b in it:
            n += 1
            r = net[interleave(a, b)]
            w = ix.L.get((a, b), ref.noEdge)
            if not (r is w or r == w):
                cx.eq(mech + ":read", r, w, "link %r" % (interleave(a, b),))
        cx.count("link_reads", n)
