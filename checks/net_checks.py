"""Monitors for the network data structures (net.py): histories of operations against the
reference model."""
import copy, itertools, pickle
from lib import core, gen, model
from lib.model import Ref, Index, interleave, lay

C = slice(None, None, None)


# ------------------------------------------------------------------ operations
class Driver(object):
    """Applies random operations to a real network and to the reference, recording the history."""

    def __init__(self, pm, rng, cx, ref, net, wkind, nodes, layers, objs=False):
        self.pm, self.rng, self.cx, self.ref, self.net = pm, rng, cx, ref, net
        self.wkind, self.nodes, self.layers, self.objs = wkind, nodes, layers, objs
        self.mplex = ref.couplings is not None

    def rnl(self):
        return (self.rng.choice(self.nodes),) + tuple(self.rng.choice(l) for l in self.layers)

    def pair(self):
        a = self.rnl()
        if self.mplex:
            b = (self.rng.choice(self.nodes),) + a[1:]
        else:
            b = self.rnl()
            if self.rng.random() < 0.3:
                b = (b[0],) + a[1:]
            if self.rng.random() < 0.12:
                b = a
        return a, b

    def value(self, removal=0.25):
        if self.rng.random() < removal:
            z = self.ref.noEdge
            return self.rng.choice([z, 0.0, False, 0]) if z == 0 and z is not None and not isinstance(z, str) else z
        if self.objs and self.rng.random() < 0.1:
            return self.rng.choice(["w", (1, 2), u"\u00e4"])
        return gen.nz(self.rng, self.wkind, self.ref.noEdge)

    def write(self, a, b, v, form=None):
        """Assigns the link in one of the documented notations."""
        net = self.net
        forms = ["full", "node"]
        if a[1:] == b[1:]:
            forms += ["short", "short"]
        if self.mplex and a[1:] == b[1:]:
            forms += ["A", "Anode"] if lay(a[1:]) in net.A else []
        form = form or self.rng.choice(forms)
        self.cx.log(("set", form, a, b, v))
        self.cx.count("writes_" + form)
        if form == "full":
            net[interleave(a, b)] = v
        elif form == "short":
            net[(a[0], b[0]) + a[1:]] = v
        elif form == "node":
            if len(a) == 1:
                net[a[0]][b[0]] = v
            else:
                net[a][b] = v
        elif form == "A":
            net.A[lay(a[1:])][a[0], b[0]] = v
        else:
            net.A[lay(a[1:])][a[0]][b[0]] = v
        if form in ("A", "Anode"):
            # the layer already exists; the endpoints become part of that layer
            self.ref.set(a, b, v)
        else:
            self.ref.set(a, b, v)
        return form

    def step(self):
        r = self.rng.random()
        ref, net, rng, cx = self.ref, self.net, self.rng, self.cx
        if r < 0.70:
            a, b = self.pair()
            if ref.w and rng.random() < 0.35:        # revisit an existing link
                a, b = rng.choice(sorted(ref.w, key=repr))
                if rng.random() < 0.3:
                    a, b = b, a
            if self.mplex and a == b:
                return None
            self.write(a, b, self.value())
            return (a, b)
        if r < 0.80:
            n = rng.choice(self.nodes)
            cx.log(("add_node", n))
            net.add_node(n)
            ref.add_node(n)
        elif r < 0.90 and ref.aspects:
            a = rng.randrange(ref.aspects) + 1
            l = rng.choice(self.layers[a - 1])
            cx.log(("add_layer", l, a))
            if a == 1 and rng.random() < 0.5:
                net.add_layer(l)
            else:
                net.add_layer(l, a)
            ref.add_layer(l, a)
        elif ref.aspects:
            nl = self.rnl()
            L = lay(nl[1:])
            if isinstance(L, tuple) and rng.random() < 0.5:
                L = list(L)
            cx.log(("add_node", nl[0], L))
            net.add_node(nl[0], layer=L)
            ref.add_node(nl[0], nl[1:])
        else:
            n = rng.choice(self.nodes)
            cx.log(("add_layer", n, 0))
            net.add_layer(n, 0)
            ref.add_layer(n, 0)
        return None


def universe(rng, aspects, kinds=None, big=False):
    n = rng.choice([2, 3, 4, 5]) if not big else rng.choice([8, 12])
    ns = gen.nodes(rng, n, mixed=rng.random() < 0.3, sortable=False)
    ls = []
    for a in range(aspects):
        k = rng.choice([1, 2, 3, 4] if aspects == 1 else [1, 2, 3] if aspects == 2 else [1, 2])
        kind = kinds[a] if kinds else None
        ls.append(gen.layers(rng, k, "ordinal" if kind == "ordinal" else None, sortable=False))
    return ns, ls


def new_general(pm, rng, cx, numeric=False, aspects=None, directed=None, full=None):
    aspects = rng.choice([0, 1, 1, 1, 2, 2, 3]) if aspects is None else aspects
    directed = rng.random() < 0.45 if directed is None else directed
    full = rng.random() < 0.6 if full is None else full
    noEdge = 0 if (numeric or rng.random() < 0.6) else rng.choice([-1, None, "none", 2, float("inf")])
    ref = Ref(aspects, directed, noEdge, full)
    net = pm.MultilayerNetwork(aspects=aspects, directed=directed, noEdge=noEdge, fullyInterconnected=full)
    ns, ls = universe(rng, aspects, big=rng.random() < 0.08)
    wk = rng.choice(["int", "float", "signed", "uniq", "unit"])
    d = Driver(pm, rng, cx, ref, net, wk, ns, ls, objs=not numeric)
    cx.log(("MultilayerNetwork", aspects, "directed" if directed else "undirected",
            "full" if ref.full else "nonfull", "noEdge", noEdge))
    cx.count("conf_a%d_%s_%s" % (aspects, "dir" if directed else "und", "full" if ref.full else "nonfull"))
    return d


def new_multiplex(pm, rng, cx, noEdge=0, kinds=None, aspects=None, directed=None):
    aspects = rng.choice([1, 1, 1, 2, 2, 3]) if aspects is None else aspects
    directed = rng.random() < 0.3 if directed is None else directed
    full = rng.random() < 0.5
    ks = [rng.choice(kinds or gen.COUPLINGS) for _ in range(aspects)]
    ns, ls = universe(rng, aspects, ks, big=rng.random() < 0.05)
    cs = []
    for a, k in enumerate(ks):
        if k in ("categorical", "ordinal"):
            cs.append((k, rng.choice([1.0, 0.5, 3, -2.0, 1])))
        elif k == "none":
            cs.append(("none",))
        else:
            links = {}
            for x in ls[a]:
                for y in ls[a]:
                    if x != y and rng.random() < 0.5 and (directed or repr(x) < repr(y)):
                        links[(x, y)] = rng.choice([1, 2, 0.5])
                        if not directed:
                            links[(y, x)] = links[(x, y)]
            cs.append(("network", links, tuple(ls[a])))
    ref = Ref(aspects, directed, noEdge, full, couplings=cs)
    arg = []
    for c, r in zip(cs, model.real_couplings(pm, ref)):
        if c[0] == "none":
            arg.append(rng.choice([None, "none", ("none",)]))
        elif c[0] != "network" and c[1] == 1.0:
            arg.append(rng.choice([c[0], (c[0],), (c[0], 1.0)]))
        else:
            arg.append(r)
    if aspects == 1 and rng.random() < 0.5:
        arg = arg[0]
    net = pm.MultiplexNetwork(couplings=arg, directed=directed, noEdge=noEdge, fullyInterconnected=full)
    cx.log(("MultiplexNetwork", repr(cs), "directed" if directed else "undirected",
            "full" if full else "nonfull", "noEdge", noEdge))
    for k in ks:
        cx.count("coupling_%s_%s" % (k, "full" if full else "nonfull"))
    d = Driver(pm, rng, cx, ref, net, rng.choice(["int", "float", "signed", "unit"]), ns, ls)
    return d


# ------------------------------------------------------------------ observers
def missing(ref):
    return "no such node \u2603"


def notations(net, a, b):
    yield "full", net[interleave(a, b)]
    if len(a) == 1:
        yield "node", net[a[0]][b[0]]
    else:
        yield "node", net[a][b]
    if a[1:] == b[1:]:
        yield "short", net[(a[0], b[0]) + a[1:]]


def check_link(cx, net, ref, a, b, mech):
    want = ref.link(a, b)
    for how, got in notations(net, a, b):
        cx.count("link_reads")
        if not (got is want or got == want) or (isinstance(want, str) != isinstance(got, str)):
            cx.fail("%s:%s" % (mech, how), "link %r read as %r in %s notation, last written value is %r"
                    % (interleave(a, b), got, how, want))


def all_nls(d):
    return list(itertools.product(d.nodes, *d.layers))


def obs_node(cx, net, ref, ix, nl, mech, directed_str=True):
    """Degrees, strengths and iterators of one node-layer against the links."""
    node = net[nl[0]] if len(nl) == 1 else net[nl]
    un = (lambda n: n) if len(nl) > 1 else (lambda n: (n,))
    for name, direction, it in (("", "tot", None), ("_total", "tot", "iter_total"),
                                ("_in", "in", "iter_in"), ("_out", "out", "iter_out")):
        if not ref.directed:
            direction = "out"
        want = ix.neigh(nl, direction)
        got = [un(n) for n in (getattr(node, it)() if it else node)]
        cx.count("neighbour_iterations")
        if set(got) != want or len(got) != len(want):
            cx.fail("%s:%s" % (mech, it or "iter"), "neighbours of %r by %s: %r, expected %r"
                    % (nl, it or "iter", got, sorted(want, key=repr)))
        dg = getattr(node, "deg" + name)()
        if dg != len(want):
            cx.fail("%s:deg%s" % (mech, name), "deg%s of %r is %r, expected %d" % (name, nl, dg, len(want)))
        if directed_str or name in ("_in", "_out"):
            st = getattr(node, "str" + name)()
            ws = ix.strength(nl, direction)
            cx.count("strengths")
            if not core.near(st, ws):
                cx.fail("%s:str%s" % (mech, name), "str%s of %r is %r, expected %r" % (name, nl, st, ws))
    cx.eq(mech + ":len", len(node), len(ix.neigh(nl, "tot" if ref.directed else "out")), "len of %r" % (nl,))


def obs_edges(cx, net, ref, ix, mech):
    got = []
    for e in net.edges:
        a, b, w = model.split(e, ref.aspects)
        cx.eq(mech + ":edge-shape", len(e), 2 * (ref.aspects + 1) + 1, "length of edge tuple %r" % (e,))
        got.append(((a, b) if ref.directed else frozenset((a, b)), w))
    want = ix.edges()
    cx.count("edges_iterated", len(got))
    gs = [k for k, _ in got]
    if len(set(gs)) != len(gs):
        cx.fail(mech + ":repeated", "edge iterated more than once: %r" % ([k for k in set(gs) if gs.count(k) > 1][:3],))
    if set(gs) != set(want):
        cx.fail(mech + ":set", "edges missing %r, extra %r" % (list(set(want) - set(gs))[:4], list(set(gs) - set(want))[:4]))
    for k, w in got:
        if w != want[k]:
            cx.fail(mech + ":weight", "edge %r iterated with weight %r, link weight is %r" % (k, w, want[k]))
    cx.eq(mech + ":len", len(net.edges), len(want), "len(net.edges)")


# ------------------------------------------------------------------ C01
class LinkHistory(core.Check):
    id = "C01"
    quick, thorough = 5000, 40000
    files = ["pymnet/net.py"]
    minima = {"link_reads": 50000, "removals_observed": 200, "writes_node": 500, "writes_short": 500,
              "writes_full": 500}
    rule = ("case: a random history of 8-60 assignments (all notations), removals, node and layer additions on a "
            "general multilayer network (0-3 aspects, directed or not, fully interconnected or not, various noEdge "
            "objects and weights); after each step the touched and some other links are read in every notation, "
            "periodically the full link table. Non-trivial: at least one overwrite or removal happened; distinct by "
            "history")

    def case(self, rng, cx, i):
        d = new_general(self.pm, rng, cx)
        ref, net = d.ref, d.net
        nls = all_nls(d)
        miss = (missing(ref),) + nls[0][1:]
        n = rng.choice([8, 15, 30, 60])
        inter = 0
        for k in range(n):
            before = dict(ref.w)
            t = d.step()
            if t is not None:
                a, b = t
                if (a, b) in before:
                    inter += 1
                    if (a, b) not in ref.w:
                        cx.count("removals_observed")
                check_link(cx, net, ref, a, b, "link")
                check_link(cx, net, ref, b, a, "reverse-link")
            for _ in range(3):
                a, b = rng.choice(nls), rng.choice(nls)
                check_link(cx, net, ref, a, b, "other-link")
            cx.eq("missing-node", net[interleave(miss, rng.choice(nls))], ref.noEdge, "link from a missing node")
            cx.eq("missing-node", net[interleave(rng.choice(nls), miss)], ref.noEdge, "link to a missing node")
            if k % 10 == 9 or k == n - 1:
                for a in nls if len(nls) <= 16 else rng.sample(nls, 16):
                    for b in nls if len(nls) <= 16 else rng.sample(nls, 16):
                        check_link(cx, net, ref, a, b, "table")
                cx.eq("reads-add-nodes", set(net), ref.nodes, "nodes after reading links of missing nodes")
        cx.raises("bad-index", KeyError, lambda: net[(1,) * (2 * (ref.aspects + 1) + 1)])
        if inter:
            cx.key(cx.trace)
        cx.sample({"history": [repr(t) for t in cx.trace[:8]], "steps": n})


# ------------------------------------------------------------------ C02
class Degrees(core.Check):
    id = "C02"
    quick, thorough = 4000, 30000
    files = ["pymnet/net.py"]
    minima = {"neighbour_iterations": 20000, "strengths": 15000, "self_loops": 50}
    rule = ("case: random history on a general multilayer network as in C01; at random quiescent points degree, "
            "in/out/total degree, strengths, neighbour iterators and len of every node-layer are compared with the "
            "links of the reference model. Non-trivial: at least one link present at a check; distinct by history")

    def case(self, rng, cx, i):
        d = new_general(self.pm, rng, cx, numeric=rng.random() < 0.8)
        if d.ref.noEdge is not None and not isinstance(d.ref.noEdge, (int, float)):
            d.objs = False
        d.objs = False
        ref, net = d.ref, d.net
        nls = all_nls(d)
        seen = False
        for rounds in range(rng.choice([1, 2, 4, 6])):
            for k in range(rng.choice([2, 6, 15])):
                d.step()
            ix = Index(ref)
            seen = seen or bool(ref.w)
            cx.count("self_loops", len([1 for a, b in ref.w if a == b]))
            for nl in nls if len(nls) <= 30 else rng.sample(nls, 30):
                obs_node(cx, net, ref, ix, nl, "node")
            obs_node(cx, net, ref, ix, (missing(ref),) + nls[0][1:], "missing-node")
        if seen:
            cx.key(cx.trace)
        cx.sample({"history": [repr(t) for t in cx.trace[:8]]})


# ------------------------------------------------------------------ C03
class Edges(core.Check):
    id = "C03"
    quick, thorough = 5000, 30000
    files = ["pymnet/net.py"]
    minima = {"edges_iterated": 5000, "multiplex": 150}
    rule = ("case: random history on a general multilayer or a multiplex network; at quiescent points the edge "
            "iterator and len(net.edges) are compared with the set of existing links (coupling links included), each "
            "edge exactly once. Non-trivial: at least one edge; distinct by history")

    def case(self, rng, cx, i):
        if rng.random() < 0.65:
            d = new_general(self.pm, rng, cx, numeric=rng.random() < 0.7)
        else:
            d = new_multiplex(self.pm, rng, cx)
            cx.count("multiplex")
        seen = 0
        for rounds in range(rng.choice([1, 2, 4])):
            for k in range(rng.choice([2, 6, 15, 25])):
                d.step()
            ix = Index(d.ref)
            seen += len(ix.L)
            obs_edges(cx, d.net, d.ref, ix, "mplex" if d.mplex else "mlayer")
            if d.mplex:
                for l in d.net.A:
                    t = l if isinstance(l, tuple) and d.ref.aspects > 1 else (l,)
                    sub = Ref(0, d.ref.directed, d.ref.noEdge)
                    sub.w = {((a[0],), (b[0],)): w for (a, b), w in d.ref.w.items() if a[1:] == t}
                    obs_edges(cx, d.net.A[l], sub, Index(sub), "intra")
        if seen:
            cx.key(cx.trace)
        cx.sample({"history": [repr(t) for t in cx.trace[:8]]})


# ------------------------------------------------------------------ C04
class Bookkeeping(core.Check):
    id = "C04"
    quick, thorough = 5000, 30000
    files = ["pymnet/net.py"]
    minima = {"states": 4000, "multiplex": 150, "nonfull_states": 1000}
    rule = ("case: random history of node, layer, node-layer additions and link assignments on a general or multiplex "
            "network; after each step every node, layer and node-layer query is compared with the sets of the "
            "reference model. Non-trivial: at least one node and, with aspects, one layer; distinct by history")

    def case(self, rng, cx, i):
        mp = rng.random() < 0.4
        d = new_multiplex(self.pm, rng, cx) if mp else new_general(self.pm, rng, cx)
        if mp:
            cx.count("multiplex")
        ref, net = d.ref, d.net
        for k in range(rng.choice([5, 12, 25])):
            if mp and rng.random() < 0.15 and len(net.A):
                l = rng.choice(sorted(net.A, key=repr))
                n = rng.choice(d.nodes)
                cx.log(("A.add_node", l, n))
                net.A[l].add_node(n)
                ref.add_node(n, l if ref.aspects > 1 else (l,))
            else:
                d.step()
            self.observe(cx, net, ref, rng)
        if ref.nodes:
            cx.key(cx.trace)
        cx.sample({"history": [repr(t) for t in cx.trace[:8]]})

    def observe(self, cx, net, ref, rng):
        cx.count("states")
        if not ref.full:
            cx.count("nonfull_states")
        for name, l in (("iter", list(net)), ("iter_nodes", list(net.iter_nodes()))):
            cx.eq("nodes:" + name, (len(l), set(l)), (len(ref.nodes), ref.nodes), "nodes by " + name)
        cx.eq("nodes:len", len(net), len(ref.nodes), "len(net)")
        cx.eq("nodes:get_layers0", set(net.get_layers(0)), ref.nodes, "get_layers(0)")
        for a in range(1, ref.aspects + 1):
            cx.eq("layers:get", set(net.get_layers(a)), ref.layers[a - 1], "get_layers(%d)" % a)
            l = list(net.iter_layers(a))
            cx.eq("layers:iter_aspect", (len(l), set(l)), (len(ref.layers[a - 1]), ref.layers[a - 1]), "iter_layers(%d)" % a)
        if ref.aspects:
            cx.eq("layers:get_default", set(net.get_layers()), ref.layers[0], "get_layers()")
        want = {lay(x) for x in ref.all_layers()} if ref.aspects else set()
        l = list(net.iter_layers())
        cx.eq("layers:iter", (len(l), set(l)), (len(want), want), "iter_layers()")
        nls = ref.node_layers()
        if ref.aspects:
            for x in ref.all_layers():
                l = list(net.iter_nodes(layer=lay(x)))
                w = {nl[0] for nl in nls if nl[1:] == x}
                cx.eq("nodes:in-layer", (len(l), set(l)), (len(w), w), "iter_nodes(layer=%r)" % (lay(x),))
        l = list(net.iter_node_layers())
        cx.eq("nodelayers", (len(l), set(l)), (len(nls), nls), "iter_node_layers()")
        if ref.couplings is not None:
            want = {lay(x) for x in ref.all_layers()}
            cx.eq("intra:keys", set(net.A), want, "layers with an intra-layer network")
            for l in want:
                w = {nl[0] for nl in nls if nl[1:] == (l if ref.aspects > 1 else (l,))} if not ref.full else ref.nodes
                g = list(net.A[l])
                cx.eq("intra:nodes", (len(g), set(g)), (len(w), w), "nodes of intra-layer network %r" % (l,))


# ------------------------------------------------------------------ C05
class Slices(core.Check):
    id = "C05"
    quick, thorough = 1200, 20000
    files = ["pymnet/net.py"]
    minima = {"slices": 20000, "mplex_slices": 2000, "partial_slices": 5000, "undefined": 500}
    rule = ("case: random general or multiplex network; random slice expressions net[i,j|:,s,r|:,...] (also in the "
            "node[...] and short notations and as arguments of deg/str) are compared with the links from that "
            "node-layer to the matching node-layers. Non-trivial: the slice selects a proper non-empty subset of the "
            "neighbours; distinct by network and slice. Multiplex slices are restricted to fixed entries equal to the "
            "node-layer's own (see known findings)")

    def case(self, rng, cx, i):
        mp = rng.random() < 0.3
        if mp:
            ref = gen.multiplex(rng, noEdge=gen.no_edge(rng), sortable=False)
        else:
            ref = gen.general(rng, noEdge=gen.no_edge(rng), aspects=rng.choice([0, 1, 1, 2, 2, 3]), sortable=False)
        net = model.build(self.pm, ref, gen.shuffled(rng, ref.w))
        cx.log(gen.describe(ref))
        nls = sorted(ref.node_layers(), key=repr)
        if not nls:
            return
        ix = Index(ref)
        d = ref.aspects + 1
        for _ in range(60 if not mp else 30):
            nl = rng.choice(nls)
            dims = []
            nb = sorted(ix.neigh(nl, "tot"), key=repr)
            other = rng.choice(nb) if nb and rng.random() < 0.7 else rng.choice(nls)
            for x in range(d):
                r = rng.random()
                dims.append(None if r < 0.5 else (nl[x] if (mp or r < 0.6) else other[x]))
            if all(x is not None for x in dims):
                dims[rng.randrange(d)] = None
            self.slice(cx, net, ref, ix, nl, tuple(dims), rng, mp)
        self.undefined(cx, net, ref, ix, rng.choice(nls), rng)

    def undefined(self, cx, net, ref, ix, nl, rng):
        """Indices without a meaning, or with one that is documented as not implemented."""
        d = ref.aspects + 1
        cx.count("undefined")
        wrong = [k for k in range(1, 2 * d + 3) if k not in (d, d + 1, 2 * d)]
        k = rng.choice(wrong)
        item = tuple(rng.choice(nl) for _ in range(k))
        cx.raises("wrong-number", KeyError, lambda: net[item if k > 1 else item[0]])
        if d > 1:  # (i,s,:) is documented to mean (i,i,s,:) one day
            free = rng.sample(range(1, d), rng.randint(1, d - 1))
            item = nl[:1] + nl[1:] + (C,) if d == 2 else None
            if item is None:
                item = (nl[0], C) + tuple(C if x in free else nl[x] for x in range(1, d))
            try:
                v = net[item]
            except Exception:
                return
            if d == 2:
                want = ix.neigh(nl, "tot" if ref.directed else "out", (nl[0], None))
            else:
                return
            cx.eq("undefined", set(v), want, "neighbours through net[%r]" % (item,))

    def slice(self, cx, net, ref, ix, nl, dims, rng, mp):
        cx.count("slices")
        if mp:
            cx.count("mplex_slices")
        tgt = tuple(C if x is None else x for x in dims)
        item = interleave(nl, tgt)
        node = net[item]
        views = [("slice", node)]
        if len(nl) > 1:
            views.append(("node-slice", net[nl][tgt]))
            if all(x == y for x, y in zip(nl[1:], dims[1:])) and dims[0] is None:
                views.append(("short-slice", net[(nl[0], C) + nl[1:]]))
        else:
            views.append(("node-slice", net[nl[0]][tgt[0]]))
        un = (lambda n: n) if len(nl) > 1 else (lambda n: (n,))
        plain = net[nl] if len(nl) > 1 else net[nl[0]]
        for how, v in views:
            for name, direction, it in (("", "tot", None), ("_total", "tot", "iter_total"),
                                        ("_in", "in", "iter_in"), ("_out", "out", "iter_out")):
                if not ref.directed:
                    direction = "out"
                want = ix.neigh(nl, direction, dims)
                got = [un(n) for n in (getattr(v, it)() if it else v)]
                cx.eq("%s:%s" % (how, it or "iter"), (len(got), set(got)), (len(want), want),
                      "neighbours through net[%r]" % (item,))
                cx.eq("%s:deg%s" % (how, name), getattr(v, "deg" + name)(), len(want), "deg%s of net[%r]" % (name, item))
                if not (mp and ref.directed and direction == "tot"):
                    cx.close("%s:str%s" % (how, name), getattr(v, "str" + name)(), ix.strength(nl, direction, dims),
                             "str%s of net[%r]" % (name, item))
                    cx.close("args:str%s" % name, getattr(plain, "str" + name)(*dims), ix.strength(nl, direction, dims),
                             "str%s%r of %r" % (name, dims, nl))
                cx.eq("args:deg%s" % name, getattr(plain, "deg" + name)(*dims), len(want), "deg%s%r of %r" % (name, dims, nl))
                if 0 < len(want) < len(ix.neigh(nl, direction)):
                    cx.count("partial_slices")
                    cx.key(gen.sig(ref), nl, dims)
            cx.eq("%s:len" % how, len(v), len(ix.neigh(nl, "tot" if ref.directed else "out", dims)), "len of net[%r]" % (item,))

    def probes(self):
        pm = self.pm

        def mplex_foreign(cx):
            net = pm.MultiplexNetwork(couplings="categorical")
            net[1, 2, "a"] = 1
            net[1, 2, "b"] = 1
            if list(net[1, 2, "a", :]) != [(2, "a")] or list(net[1, :, "a", "b"]) != [(1, "b")]:
                raise core.Violation("probe:mplex-foreign-slice", "net[1,2,'a',:] or net[1,:,'a','b'] is empty")
        return [("probe:mplex-foreign-slice", mplex_foreign)]


# ------------------------------------------------------------------ C06
class Couplings(core.Check):
    id = "C06"
    quick, thorough = 3000, 20000
    files = ["pymnet/net.py"]
    minima = {"link_reads": 20000, "neighbour_iterations": 10000, "rejected_writes": 300,
              "coupling_categorical_full": 30, "coupling_categorical_nonfull": 30, "coupling_ordinal_full": 30,
              "coupling_ordinal_nonfull": 30, "coupling_network_full": 30, "coupling_none_nonfull": 30}
    rule = ("case: random history on a multiplex network (1-3 aspects, each categorical / ordinal / none / network "
            "coupled with various strengths, directed or not, fully interconnected or not); at quiescent points all "
            "link reads, degrees, strengths, neighbour iterators are compared with the coupling rules plus the "
            "intra-layer links; attempts to write inter-layer or self links must fail and change nothing. "
            "Non-trivial: at least one coupling link exists; distinct by history")

    def case(self, rng, cx, i):
        d = new_multiplex(self.pm, rng, cx, noEdge=0 if rng.random() < 0.85 else -7)
        ref, net = d.ref, d.net
        nls = all_nls(d)
        nt = False
        for rounds in range(rng.choice([1, 2, 4])):
            for k in range(rng.choice([2, 6, 15])):
                d.step()
            ix = Index(ref)
            nt = nt or len(ix.L) > len(ref.w)
            ex = [nl for nl in nls if all(l in s for l, s in zip(nl[1:], ref.layers))]
            sub = ex if len(ex) <= 12 else rng.sample(ex, 12)
            for a in sub:
                for b in sub:
                    check_link(cx, net, ref, a, b, "link")
            if ex:  # links within layers that the network does not have
                a = rng.choice(ex)
                x = rng.randrange(1, ref.aspects + 1)
                far = a[:x] + (10 ** 6,) + a[x + 1:]
                for b in (far, (missing(ref),) + far[1:], (rng.choice(sub)[0],) + far[1:]):
                    check_link(cx, net, ref, far, b, "far-link")
                    check_link(cx, net, ref, b, far, "far-link")
                cx.true("far-layer", 10 ** 6 not in net.slices[x], "reading links of a layer added it")
            for a in sub:
                obs_node(cx, net, ref, ix, a, "node", directed_str=not ref.directed)
            if ex and rng.random() < 0.7:
                obs_node(cx, net, ref, ix, (missing(ref),) + ex[0][1:], "missing", directed_str=not ref.directed)
            for _ in range(3):
                if not ref.node_layers():
                    break
                a = rng.choice(sorted(ref.node_layers(), key=repr))
                b = rng.choice(sorted(ref.node_layers(), key=repr))
                if a[1:] == b[1:]:
                    b = a
                cx.count("rejected_writes")
                try:
                    net[interleave(a, b)] = 5
                except KeyError:
                    pass
                else:
                    cx.fail("illegal-write", "assigning the inter-layer or self link %r succeeded" % (interleave(a, b),))
                check_link(cx, net, ref, a, b, "after-illegal-write")
        if rng.random() < 0.2:
            cx.count("invalid_couplings")
            two = self.pm.MultilayerNetwork(aspects=1)
            bad = rng.choice(["categoricall", "", 5, ("ordinall", 1.0), (), two, (two,), 1.5, {"categorical"}])
            if rng.random() < 0.5:
                bad = rng.choice([["categorical", bad], [bad], [bad, "none"]])
            cx.raises("invalid-coupling", Exception, self.pm.MultiplexNetwork, couplings=bad)
        if nt:
            cx.key(cx.trace)
        cx.sample({"history": [repr(t) for t in cx.trace[:8]]})


# ------------------------------------------------------------------ C07
class IntraViews(core.Check):
    id = "C07"
    quick, thorough = 3000, 20000
    files = ["pymnet/net.py"]
    minima = {"replacements": 300, "alias_checks": 20000}
    rule = ("case: random history mixing writes through net[...] and through the intra-layer networks net.A[layer], "
            "node additions through net.A[layer] and whole-layer replacement net.A[layer]=other; after each step all "
            "layers are read both ways and compared with the reference. Non-trivial: both ways of writing were used; "
            "distinct by history")

    def case(self, rng, cx, i):
        pm = self.pm
        d = new_multiplex(pm, rng, cx, noEdge=0 if rng.random() < 0.85 else -7)
        ref, net = d.ref, d.net
        for a in range(ref.aspects):
            for l in d.layers[a]:
                net.add_layer(l, a + 1)
                ref.add_layer(l, a + 1)
        sources = []
        for k in range(rng.choice([6, 12, 25])):
            r = rng.random()
            L = rng.choice(ref.all_layers())
            if r < 0.12:
                src = pm.MultilayerNetwork(aspects=0, directed=ref.directed, noEdge=ref.noEdge)
                sref = Ref(0, ref.directed, ref.noEdge)
                ns = rng.sample(d.nodes, rng.randint(0, len(d.nodes)))
                for n in ns:
                    src.add_node(n)
                    sref.add_node(n)
                for x in ns:
                    for y in ns:
                        if x != y and rng.random() < 0.4:
                            w = gen.nz(rng, d.wkind, ref.noEdge)
                            src[x, y] = w
                            sref.set((x,), (y,), w)
                if rng.random() < 0.25:      # another layer, or the layer itself, as the source
                    M = rng.choice(ref.all_layers())
                    src = net.A[lay(M)]
                    sref = Ref(0, ref.directed, ref.noEdge)
                    for n in (ref.nodes if ref.full else {nl[0] for nl in ref.nls if nl[1:] == M}):
                        sref.add_node(n)
                    for (a, b), w in ref.w.items():
                        if a[1:] == M:
                            sref.w[(a[:1], b[:1])] = w
                    cx.log(("source is layer", M))
                cx.log(("A.replace", L, sorted(map(repr, sref.w.items()))))
                net.A[lay(L)] = src
                cx.count("replacements")
                if not hasattr(src, "parent"):
                    sources.append((src, sref))
                for key in [kk for kk in ref.w if kk[0][1:] == L]:
                    del ref.w[key]
                ref.nls = {nl for nl in ref.nls if nl[1:] != L}
                for n in sref.nodes:
                    ref.add_node(n, L)
                for (x, y), w in sref.w.items():
                    ref.set(x + L, y + L, w)
            elif r < 0.24:
                n = rng.choice(d.nodes)
                cx.log(("A.add_node", L, n))
                net.A[lay(L)].add_node(n)
                ref.add_node(n, L)
            else:
                d.step()
            for L2 in ref.all_layers():
                self.layer(cx, net, ref, L2, rng)
            cx.eq("nodes", set(net), ref.nodes, "nodes of the network")
        cx.eq("A-attr", set(net.A), {lay(x) for x in ref.all_layers()}, "keys of A")
        cx.eq("nodelayers", set(net.iter_node_layers()), ref.node_layers(), "node-layers")
        ix = Index(ref)
        for nl in sorted(ref.node_layers(), key=repr)[:10]:
            obs_node(cx, net, ref, ix, nl, "node", directed_str=not ref.directed)
        for src, sref in sources:      # the copy is independent of the network it was copied from
            model.compare(cx, src, sref, "source-changed")
        if sources and sources[-1][1].nodes:
            src, sref = sources[-1]
            n = sorted(sref.nodes, key=repr)[0]
            before = {k: net[interleave(*k)] for k in ref.w}
            src[n, "fresh node"] = 99
            for k, w in before.items():
                cx.eq("source-alias", net[interleave(*k)], w, "link after changing the source of a copied layer")
            cx.true("source-alias", "fresh node" not in set(net), "node leaked from the source of a copied layer")
        cx.raises("unknown-layer", Exception, net.A.__setitem__, "no such layer", pm.MultilayerNetwork(aspects=0))
        cx.key(cx.trace)
        cx.sample({"history": [repr(t) for t in cx.trace[:8]]})

    def layer(self, cx, net, ref, L, rng):
        A = net.A[lay(L)]
        want_nodes = ref.nodes if ref.full else {nl[0] for nl in ref.nls if nl[1:] == L}
        cx.eq("intra:nodes", set(A), want_nodes, "nodes of layer %r" % (L,))
        cx.eq("intra:iter_nodes", set(net.iter_nodes(layer=lay(L))), want_nodes, "iter_nodes of layer %r" % (L,))
        want = {(a[0], b[0]): w for (a, b), w in ref.w.items() if a[1:] == L}
        ns = sorted(ref.nodes, key=repr)
        for x in ns:
            for y in ns:
                if x == y:
                    continue
                w = want.get((x, y), ref.noEdge)
                cx.count("alias_checks")
                g = A[x, y]
                if g != w:
                    cx.fail("intra:read", "A[%r][%r,%r] is %r, expected %r" % (L, x, y, g, w))
                g = net[(x, y) + L]
                if g != w:
                    cx.fail("net:read", "net[%r,%r,%r] is %r, expected %r" % (x, y, L, g, w))
            nb = {b for (a, b) in want if a == x}
            if ref.directed:
                nb |= {a for (a, b) in want if b == x}
            cx.eq("intra:neigh", set(A[x]), nb, "neighbours of %r in A[%r]" % (x, L))
            cx.eq("intra:deg", A[x].deg(), len(nb), "degree of %r in A[%r]" % (x, L))


# ------------------------------------------------------------------ C08
class Equality(core.Check):
    id = "C08"
    quick, thorough = 4000, 30000
    files = ["pymnet/net.py"]
    minima = {"equal_pairs": 1500, "different_pairs": 1500, "pickles": 500, "hashes": 300}
    rule = ("case: random network built twice along different histories (other insertion order, links written and "
            "removed again, other notations): must be equal; then one random content change (weight, link, node, "
            "layer, node-layer, directedness, noEdge, coupling, class): must be different, in both directions; pickled, "
            "deep-copied networks must be equal to and independent of the original. Non-trivial: at least one link; "
            "distinct by network and change")

    def case(self, rng, cx, i):
        pm = self.pm
        mp = rng.random() < 0.4
        ref = gen.multiplex(rng, sortable=False, noEdge=gen.no_edge(rng)) if mp else gen.general(rng, sortable=False, noEdge=gen.no_edge(rng))
        cx.log(gen.describe(ref))
        n1 = model.build(pm, ref, gen.shuffled(rng, ref.w))
        n2 = self.detour(rng, ref)
        self.equal(cx, n1, n2, "rebuilt")
        self.equal(cx, n1, n1, "self")
        if not mp:
            cx.count("hashes")
            cx.eq("hash", hash(n1), hash(n2), "hashes of equal networks")
        p = pickle.loads(pickle.dumps(n1, rng.choice([0, 2, pickle.HIGHEST_PROTOCOL])))
        cx.count("pickles")
        self.equal(cx, n1, p, "pickled")
        c = copy.deepcopy(n1)
        self.equal(cx, n1, c, "deepcopy")
        r2 = ref.copy()
        what = self.mutate(rng, r2, mp)
        if what:
            cx.log(("change", what))
            target = rng.choice([p, c, None])
            if target is not None and what[0] in ("weight", "add", "remove"):
                _, a, b, v = what
                if mp and rng.random() < 0.5:
                    target.A[lay(a[1:])][a[0], b[0]] = v
                else:
                    target[interleave(a, b)] = v
                n3 = target
                model.compare(cx, n1, ref, "original-after-changing-copy", rng=rng, maxpairs=300)
            else:
                n3 = model.build(pm, r2, gen.shuffled(rng, r2.w))
            self.different(cx, n1, n3, what[0])
            cx.count("change_" + what[0])
            if ref.w:
                cx.key(gen.sig(ref), what)
        for other in (None, 1, "net", object(), [1]):
            cx.eq("other-type", n1 == other, False, "comparison with %r" % (other,))
            cx.eq("other-type", n1 != other, True, "comparison with %r" % (other,))
        cx.sample({"network": gen.describe(ref), "change": repr(what)})

    def equal(self, cx, a, b, how):
        cx.count("equal_pairs", 2)
        for x, y in ((a, b), (b, a)):
            cx.eq("eq:" + how, x == y, True, "equality with the %s network" % how)
            cx.eq("ne:" + how, x != y, False, "inequality with the %s network" % how)

    def different(self, cx, a, b, how):
        cx.count("different_pairs", 2)
        for x, y in ((a, b), (b, a)):
            cx.eq("neq:" + how, x == y, False, "equality of networks that differ by " + how)
            cx.eq("neq:" + how, x != y, True, "inequality of networks that differ by " + how)

    def detour(self, rng, ref):
        pm = self.pm
        tmp = ref.copy()
        nls = sorted(ref.node_layers(), key=repr)
        junk = []
        net = model.build(pm, Ref(ref.aspects, ref.directed, ref.noEdge, ref.full, ref.couplings))
        def structure():
            for n in gen.shuffled(rng, sorted(ref.nodes, key=repr)):
                net.add_node(n)
            for a, ls in enumerate(ref.layers):
                for l in gen.shuffled(rng, sorted(ls, key=repr)):
                    net.add_layer(l, a + 1)
            if not ref.full:
                for nl in gen.shuffled(rng, nls):
                    net.add_node(nl[0], layer=lay(nl[1:]))
        structure()
        for _ in range(rng.randint(0, 6)):
            if not nls:
                break
            a, b = rng.choice(nls), rng.choice(nls)
            if ref.couplings is not None:
                b = (b[0],) + a[1:]
                if a == b or not ref.exists(b):
                    continue
            net[interleave(a, b)] = gen.nz(rng, "int", ref.noEdge)
            junk.append((a, b))
        for a, b in gen.shuffled(rng, ref.w):
            if not ref.directed and rng.random() < 0.5:
                a, b = b, a
            net[interleave(a, b)] = ref.w[(a, b)]
        for a, b in junk:
            net[interleave(a, b)] = ref.w.get((a, b), ref.noEdge)
        structure()
        return net

    def mutate(self, rng, r, mp):
        opts = ["weight", "remove", "add", "node", "layer", "nodelayer", "directed", "full", "coupling",
                "noEdge", "bigweight", "class"]
        for _ in range(20):
            o = rng.choice(opts)
            if o in ("weight", "remove", "bigweight") and r.w:
                a, b = rng.choice(sorted(r.w, key=repr))
                v = r.noEdge if o == "remove" else gen.nz(rng, "int", r.noEdge) + 0.125
                r.set(a, b, v)
                return ("weight" if o == "bigweight" else o, a, b, v)
            if o == "add":
                nls = sorted(r.node_layers(), key=repr)
                if not nls:
                    continue
                a, b = rng.choice(nls), rng.choice(nls)
                if mp:
                    b = (b[0],) + a[1:]
                    if a == b or not r.exists(b):
                        continue
                if (a, b) in r.w:
                    continue
                v = gen.nz(rng, "int", r.noEdge)
                r.set(a, b, v)
                return ("add", a, b, v)
            if o == "node":
                r.add_node("extra node")
                return ("node",)
            if o == "layer" and r.aspects:
                a = rng.randrange(r.aspects)
                if r.couplings and r.couplings[a][0] == "ordinal":
                    l = max(list(r.layers[a]) + [0]) + 1
                elif r.couplings and r.couplings[a][0] == "network":
                    continue
                else:
                    l = "extra layer"
                r.layers[a].add(l)
                return ("layer", a)
            if o == "nodelayer" and not r.full:
                c = [x for x in itertools.product(r.nodes, *r.layers) if x not in r.nls]
                if c:
                    r.nls.add(rng.choice(sorted(c, key=repr)))
                    return ("nodelayer",)
            if o == "directed":
                if r.couplings and any(c[0] == "network" for c in r.couplings):
                    continue
                r.directed = not r.directed
                if not r.directed:
                    for (a, b), w in list(r.w.items()):
                        r.w[(b, a)] = w
                return ("directed",)
            if o == "full" and r.aspects:
                if r.full:  # a network with the same node-layers that is not node-aligned
                    r.nls, r.full = r.node_layers(), False
                else:
                    r.full = True
                return ("full",)
            if o == "coupling" and r.couplings:
                a = rng.randrange(r.aspects)
                c = r.couplings[a]
                r.couplings = list(r.couplings)
                if c[0] in ("categorical", "ordinal"):
                    r.couplings[a] = (c[0], c[1] + 1)
                elif c[0] == "none":
                    r.couplings[a] = ("categorical", 1.0)
                else:
                    continue
                return ("coupling", a)
            if o == "noEdge" and not any(w == -77 for w in r.w.values()):
                if r.couplings and any(c[0] == "network" for c in r.couplings):
                    continue
                r.noEdge = -77
                return ("noEdge",)
            if o == "class" and mp and r.aspects and all(c[0] == "none" for c in r.couplings):
                r.couplings = None
                return ("class",)
        return None


# ------------------------------------------------------------------ C09
class Supra(core.Check):
    id = "C09"
    quick, thorough = 3000, 20000
    files = ["pymnet/net.py", "pymnet/transforms.py"]
    minima = {"entries": 30000}
    rule = ("case: random general or multiplex network, 0-3 aspects; every entry of the supra-adjacency matrix, with and "
            "without inter-layer edges, is compared with the link between the node-layers of that row and column. "
            "Non-trivial: the matrix has a non-zero entry; distinct by network")

    def case(self, rng, cx, i):
        pm = self.pm
        mp = rng.random() < 0.5
        if mp:
            ref = gen.multiplex(rng, sortable=True, mixed=False)
        else:
            ref = gen.general(rng, sortable=True, wkind=rng.choice(["unit", "int", "float", "signed"]))
        net = model.build(pm, ref, gen.shuffled(rng, ref.w))
        cx.log(gen.describe(ref))
        ix = Index(ref)
        for f in (pm.supra_adjacency_matrix, lambda n, **k: n.get_supra_adjacency_matrix(**k)):
            for inc in (None, True, False):
                m, nodes = f(net) if inc is None else f(net, includeCouplings=inc)
                keys = [(n,) for n in nodes] if ref.aspects == 0 else list(nodes)
                cx.eq("nodes:distinct", len(set(keys)), len(keys), "node-layers are distinct")
                want = set(itertools.product(ref.nodes, *ref.layers))
                cx.eq("nodes", set(keys), want, "node-layers of the supra-adjacency matrix")
                cx.eq("shape", tuple(m.shape), (len(keys), len(keys)) if keys else tuple(m.shape), "shape")
                for x, a in enumerate(keys):
                    for y, b in enumerate(keys):
                        w = ix.L.get((a, b), 0)
                        if inc is False and a[1:] != b[1:]:
                            w = 0
                        cx.count("entries")
                        if m[x, y] != w:
                            cx.fail("entry:%s" % ("all" if inc is not False else "intra"),
                                    "entry for %r,%r is %r, link is %r" % (a, b, m[x, y], w))
        if ix.L:
            cx.key(gen.sig(ref))
        cx.sample(gen.describe(ref))


# ------------------------------------------------------------------ C45
class Modularity(core.Check):
    id = "C45"
    quick, thorough = 2500, 30000
    files = ["pymnet/net.py"]
    minima = {"intra": 20000, "inter": 8000, "inter_links": 5000, "multiplex": 800, "two_aspects": 300, "layer_sums": 2000, "not_full": 350}
    rule = ("case: random undirected general or multiplex network with positive weights; every entry of its modularity view is compared "
            "with the link minus gamma times the product of the intra-layer strengths divided by the total intra-layer strength of the "
            "layer, or with the link alone between layers; the entries of a layer add up to (1-gamma) times its total strength. "
            "Non-trivial: at least two links within layers; distinct by network and gamma")
    assumptions = ["undirected networks with positive weights where 0 means no link; layers without links within them have no null model"]

    def case(self, rng, cx, i):
        pm = self.pm
        asp = rng.choice([1, 1, 1, 2])
        wkind = rng.choice(["unit", "int", "float", "pos"])
        if rng.random() < 0.5:
            ref = gen.multiplex(rng, aspects=asp, directed=False, wkind=wkind, sortable=False, unit_coupling=True)
            cx.count("multiplex")
        else:
            ref = gen.general(rng, aspects=asp, directed=False, wkind=wkind, sortable=False, self_loops=rng.random() < 0.4)
        ix = Index(ref)
        if not ix.L:
            return
        if asp == 2:
            cx.count("two_aspects")
        if not ref.full:
            cx.count("not_full")
        net = model.build(pm, ref, gen.shuffled(rng, ref.w))
        gamma = rng.choice([None, 1.0, 0.0, 0.5, 2, 3.7])
        cx.log(gen.describe(ref), "gamma", gamma)
        view = pm.net.ModularityMultilayerNetworkView(net) if gamma is None else pm.net.ModularityMultilayerNetworkView(net, gamma=gamma)
        g = 1.0 if gamma is None else gamma
        cx.eq("nodes", set(view), set(ref.nodes), "nodes of the view")
        cx.eq("nodes", len(view), len(ref.nodes), "number of nodes of the view")
        cx.eq("layers", list(map(set, view.slices[1:])), list(map(set, ref.layers)), "layers of the view")
        k = {}
        for (a, b), w in ref.w.items():
            if a[1:] == b[1:]:
                k[a] = k.get(a, 0) + w
        total = {}
        for a, s in k.items():
            total[a[1:]] = total.get(a[1:], 0) + s
        nls = list(itertools.product(sorted(ref.nodes, key=repr), *[sorted(l, key=repr) for l in ref.layers]))
        if len(nls) > 24:
            nls = rng.sample(nls, 24)
        for a in nls:
            for b in nls:
                w = ix.L.get((a, b), 0)
                if a[1:] == b[1:]:
                    if not total.get(a[1:]):
                        continue
                    cx.count("intra")
                    want = w - g * k.get(a, 0) * k.get(b, 0) / float(total[a[1:]])
                else:
                    cx.count("inter")
                    if w:
                        cx.count("inter_links")
                    want = w
                link = model.interleave(a, b)
                cx.close("entry:%s" % ("intra" if a[1:] == b[1:] else "inter"), view[link], want, "entry %r" % (link,))
                if a[1:] == b[1:]:
                    cx.close("entry:short", view[(a[0], b[0]) + a[1:]], want, "entry %r in layer %r" % ((a[0], b[0]), a[1:]))
        for L, t in total.items():
            s = sum(view[(x, y) + L] for x in ref.nodes for y in ref.nodes)
            cx.count("layer_sums")
            cx.close("layer-sum", s, (1 - g) * t, "sum of the entries in layer %r" % (L,), tol=1e-7)
        model.compare(cx, net, ref, "original-changed", rng=rng, maxpairs=100)
        if sum(1 for a, b in ref.w if a[1:] == b[1:]) >= 4:
            cx.key(gen.sig(ref), gamma)
        cx.sample(gen.describe(ref))
