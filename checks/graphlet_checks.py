"""Monitors for graphlets (graphlets/): enumeration, orbits, orbit counts, orbit equations."""
import itertools, math
from fractions import Fraction
from lib import bliss, core, gen, model

GFILES = ["pymnet/graphlets/graphlets.py", "pymnet/graphlets/graphlet_measures.py", "pymnet/graphlets/independent_equations.py"]


# ---------------------------------------------------------------- oracle: small multiplex networks as bit masks
class Space(object):
    """Networks of k nodes as one bit mask of node pairs per layer."""
    cache = {}

    def __init__(self, k):
        self.k = k
        self.pairs = list(itertools.combinations(range(k), 2))
        self.bit = {p: 1 << i for i, p in enumerate(self.pairs)}
        self.perms = list(itertools.permutations(range(k)))
        self.tables = []
        for p in self.perms:
            t = [0] * (1 << len(self.pairs))
            img = [self.bit[tuple(sorted((p[a], p[b])))] for a, b in self.pairs]
            for m in range(1, len(t)):
                low = (m & -m).bit_length() - 1
                t[m] = t[m & (m - 1)] | img[low]
            self.tables.append(t)
        self.connected = [self._conn(m) for m in range(1 << len(self.pairs))]
        self.memo = {}

    @classmethod
    def of(cls, k):
        if k not in cls.cache:
            cls.cache[k] = cls(k)
        return cls.cache[k]

    def _conn(self, m):
        seen, todo = {0}, [0]
        while todo:
            x = todo.pop()
            for p in self.pairs:
                if m & self.bit[p] and x in p:
                    y = p[0] + p[1] - x
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
        return len(seen) == self.k

    def conn(self, masks):
        u = 0
        for m in masks:
            u |= m
        return self.connected[u]

    def canon(self, masks, coup, fixed, root=None):
        """Canonical form. coup: adjacency of the layer positions. fixed: labels of the layers, or None if layers can be permuted."""
        key = (masks, coup, fixed, root)
        r = self.memo.get(key)
        if r is not None:
            return r
        L = len(masks)
        lps = [tuple(range(L))] if fixed is not None else list(itertools.permutations(range(L)))
        best = None
        for lp in lps:
            c = tuple(sorted(tuple(sorted((lp[a], lp[b]))) for a, b in coup)) if fixed is None else ()
            m2 = [0] * L
            for a in range(L):
                m2[lp[a]] = masks[a]
            for p, t in zip(self.perms, self.tables):
                cand = (c, tuple(t[m] for m in m2), -1 if root is None else p[root])
                if best is None or cand < best:
                    best = cand
        best = (self.k, best, fixed)
        self.memo[key] = best
        return best


def coupling_adj(layers, coup):
    if coup == "categorical":
        return tuple(itertools.combinations(range(len(layers)), 2))
    if coup == "ordinal":
        return tuple((a, b) for a, b in itertools.combinations(range(len(layers)), 2) if abs(layers[a] - layers[b]) == 1)
    return ()


class Fam(object):
    """One family of graphlets: layers, couplings, permutable aspects."""

    def __init__(self, n, layers, n_l, coup, allowed):
        self.n, self.layers, self.n_l, self.coup, self.allowed = n, list(layers), n_l, coup, allowed
        self.layerperm = allowed == "all" or 1 in allowed

    def key(self):
        return (self.n, tuple(self.layers), self.n_l, self.coup, repr(self.allowed))

    def arg(self, rng):
        if self.coup is None:
            return rng.choice([None, "none"])
        return self.coup

    def canon(self, k, masks, layers, root=None):
        return Space.of(k).canon(tuple(masks), coupling_adj(layers, self.coup), None if self.layerperm else tuple(layers), root)

    def classes(self, k):
        """All isomorphism classes of aggregate-connected networks with k nodes."""
        sp = Space.of(k)
        out = set()
        for ls in itertools.combinations(self.layers, self.n_l):
            adj = coupling_adj(ls, self.coup)
            fixed = None if self.layerperm else tuple(ls)
            for masks in itertools.product(range(1 << len(sp.pairs)), repeat=len(ls)):
                if sp.conn(masks):
                    out.add(sp.canon(masks, adj, fixed))
        return out

    def read(self, net):
        """Bit masks of a real network (read through the public API)."""
        nodes = sorted(net, key=repr)
        layers = sorted(net.get_layers(1), key=lambda l: (self.layers.index(l) if l in self.layers else 99, repr(l)))
        sp = Space.of(len(nodes))
        masks = []
        for l in layers:
            m = 0
            for (a, b) in sp.pairs:
                if net[nodes[a], nodes[b], l] != 0:
                    m |= sp.bit[(a, b)]
            masks.append(m)
        return nodes, layers, tuple(masks)

    def make(self, pm, rng, k, masks, layers, names=None):
        """A real network with these masks."""
        sp = Space.of(k)
        names = names or list(range(k))
        net = pm.MultiplexNetwork(couplings=self.arg(rng), fullyInterconnected=True)
        for l in gen.shuffled(rng, layers):
            net.add_layer(l)
        for x in gen.shuffled(rng, names):
            net.add_node(x)
        for l, m in gen.shuffled(rng, list(zip(layers, masks))):
            for (a, b) in gen.shuffled(rng, sp.pairs):
                if m & sp.bit[(a, b)]:
                    net[names[a], names[b], l] = 1
        return net


def family(rng, big=0.1, subsets=True, equations=False):
    coup = rng.choice([None, None, "categorical", "ordinal"]) if not equations else rng.choice([None, None, "categorical"])
    n, L = rng.choice([(3, 1), (3, 2), (3, 2), (3, 2), (3, 3), (3, 3), (4, 1), (4, 1), (2, 1), (2, 3)])
    if rng.random() < big:
        n, L = rng.choice([(4, 2), (4, 2), (3, 4), (5, 1)])
    if coup == "ordinal":
        layers = rng.choice([list(range(L)), list(range(5, 5 + L)), [0, 1, 3, 4, 6][:L], [2 * i for i in range(L)]])
    else:
        layers = rng.choice([list(range(L)), list("abcd")[:L], [10, 7, -3, 0][:L]])
    n_l = L
    if subsets and rng.random() < 0.25 and L < 4 and n <= 3:
        layers = layers + [max(layers) + rng.choice([1, 2])] if not isinstance(layers[0], str) else layers + ["z"]
    allowed = rng.choice(["all", "all", [0], [0, 1]])
    return Fam(n, layers, n_l, coup, allowed)


class Enumeration(core.Check):
    id = "C33"
    quick, thorough = 160, 1500
    files = GFILES[:1]
    steps = 200000000
    minima = {"graphlets": 2500, "orbits": 5000, "subsets_of_layers": 15, "invariants": 1500, "four_nodes": 8, "nodelayer_orbits": 4000}
    rule = ("case: graphlets for a random number of nodes, layers, layers per graphlet, couplings and permutable aspects; there must be "
            "exactly one for each isomorphism class of aggregate-connected networks (all networks are enumerated as bit masks), filed "
            "under its number of nodes; complete invariants must lead from any relabeled network to its graphlet; orbits must be the "
            "orbits of the brute-force automorphism group. Non-trivial: three or more nodes; distinct by family and labels")
    assumptions = ["PyBliss is replaced by a stand-in for the PyBliss module", "at most 5 nodes in one layer, 4 in two, 3 in four"]

    def before_import(self):
        bliss.install()

    def case(self, rng, cx, i):
        pm = self.pm
        G = pm.graphlets
        fam = family(rng)
        cx.log("family", fam.key())
        kw = {"couplings": fam.arg(rng), "allowed_aspects": fam.allowed}
        if fam.n_l != len(fam.layers) or rng.random() < 0.5:
            kw["n_l"] = fam.n_l
        layers_in = list(fam.layers)
        nets, invs = G.graphlets(fam.n, layers_in, **kw)
        cx.eq("layers-argument", layers_in, fam.layers, "list of layers given by the caller")
        cx.eq("sizes", set(nets), set(range(2, fam.n + 1)), "numbers of nodes")
        if fam.n_l < len(fam.layers):
            cx.count("subsets_of_layers")
        if fam.n >= 4:
            cx.count("four_nodes")
        where = {}
        for k in nets:
            for j, net in enumerate(nets[k]):
                nodes, layers, masks = fam.read(net)
                cx.count("graphlets")
                cx.eq("graphlet-nodes", len(nodes), k, "number of nodes of graphlet (%d,%d)" % (k, j))
                cx.eq("graphlet-layers", len(layers), fam.n_l, "number of layers of graphlet (%d,%d)" % (k, j))
                cx.true("graphlet-layer-names", set(layers) <= set(fam.layers), "layers %r" % (layers,))
                cx.eq("graphlet-node-layers", sorted(map(repr, net.iter_node_layers())),
                      sorted(repr(x) for x in itertools.product(nodes, layers)), "node-layers of graphlet (%d,%d)" % (k, j))
                cx.true("graphlet-connected", Space.of(k).conn(masks), "graphlet (%d,%d) is not connected" % (k, j))
                adj = coupling_adj(layers, fam.coup)
                for x, y in itertools.combinations(range(len(layers)), 2):
                    cx.eq("graphlet-coupling", net[nodes[0], nodes[0], layers[x], layers[y]] != 0, (x, y) in adj, "coupling of graphlet")
                c = fam.canon(k, masks, layers)
                cx.true("duplicate", c not in where, "graphlets %r and (%d,%d) are isomorphic" % (where.get(c), k, j))
                where[c] = (k, j)
            want = fam.classes(k)
            got = {c for c, kj in where.items() if kj[0] == k}
            cx.eq("complete", len(got), len(want), "number of graphlets with %d nodes" % k)
            cx.eq("complete-classes", got, want, "classes of graphlets with %d nodes" % k)
        cx.eq("invariants", sorted(invs.values()), sorted(where.values()), "graphlets that have an invariant")
        # invariants find the graphlet of any network
        for _ in range(12):
            k = rng.choice(list(nets))
            sp = Space.of(k)
            ls = rng.choice(list(itertools.combinations(fam.layers, fam.n_l)))
            masks = tuple(rng.randrange(1 << len(sp.pairs)) for _ in ls)
            names = gen.shuffled(rng, range(10, 10 + k)) if rng.random() < 0.5 else gen.shuffled(rng, "pqrstuv"[:k])
            net = fam.make(pm, rng, k, masks, ls, names)
            s = str(pm.get_complete_invariant(net, allowed_aspects=fam.allowed))
            cx.count("invariants")
            if sp.conn(masks):
                cx.eq("invariant-lookup", invs.get(s), where[fam.canon(k, masks, ls)], "graphlet found for %r in layers %r" % (masks, ls))
            else:
                cx.true("invariant-disconnected", s not in invs, "a graphlet %r was found for an unconnected network" % (invs.get(s),))
        # orbits
        auts = G.automorphism_orbits(nets, allowed_aspects=fam.allowed)
        cx.eq("orbit-keys", set(auts), {(k, j, v) for k in nets for j, net in enumerate(nets[k]) for v in net}, "keys of the orbits")
        import sys
        nlauts = sys.modules["pymnet.graphlets.graphlets"].automorphism_orbits_nl(nets, allowed_aspects=fam.allowed)
        nlkeys = set()
        want_orbits = 0
        for k in nets:
            for j, net in enumerate(nets[k]):
                nodes, layers, masks = fam.read(net)
                rooted = {}
                for x, v in enumerate(nodes):
                    c = fam.canon(k, masks, layers, root=x)
                    rooted.setdefault(c, []).append(v)
                want_orbits += len(rooted)
                for c, vs in rooted.items():
                    names = {auts[k, j, v] for v in vs}
                    cx.count("orbits", len(vs))
                    cx.true("orbit", len(names) == 1 and names <= set(vs), "orbit %r of graphlet (%d,%d) has representatives %r" % (vs, k, j, names))
                nlo = nl_orbits(k, masks, coupling_adj(layers, fam.coup), fam.layerperm)
                for orb in nlo:
                    nls = {(nodes[a], layers[b]) for a, b in orb}
                    nlkeys |= {(k, j, x) for x in nls}
                    names = {nlauts[k, j, x] for x in nls}
                    cx.count("nodelayer_orbits", len(nls))
                    cx.true("orbit-nl", len(names) == 1 and names <= nls, "node-layer orbit %r of graphlet (%d,%d) has representatives %r" % (nls, k, j, names))
        cx.eq("orbit-nl-keys", set(nlauts), nlkeys, "keys of the node-layer orbits")
        lists = G.list_orbits(auts)
        cx.eq("list-orbits-sizes", set(lists), set(nets), "numbers of nodes in the list of orbits")
        flat = [o for k in lists for o in lists[k]]
        cx.eq("list-orbits", sorted(map(repr, flat)), sorted({repr((k, j, auts[k, j, v])) for k, j, v in auts}), "list of orbits")
        cx.true("list-orbits-size", all(o[0] == k for k in lists for o in lists[k]) and len(flat) == want_orbits, "list of orbits by size")
        on = G.orbit_numbers(fam.n, nets, auts)
        cx.eq("orbit-numbers", sorted(on.values()), list(range(want_orbits)), "orbit numbers")
        cx.eq("orbit-numbers-keys", set(on), set(flat), "numbered orbits")
        order = sorted(on, key=on.get)
        cx.eq("orbit-numbers-order", [o[0] for o in order], sorted(o[0] for o in order), "sizes of orbits in order of their numbers")
        cx.eq("ordered-orbits", G.ordered_orbit_list(on), order, "ordered list of orbits")
        if fam.n > 2:
            cx.key(fam.key(), i)
        cx.sample({"family": repr(fam.key()), "graphlets": {k: len(v) for k, v in nets.items()}, "orbits": want_orbits})


def nl_orbits(k, masks, adj, layerperm):
    sp = Space.of(k)
    L = len(masks)
    adjs = {tuple(sorted(e)) for e in adj}
    rel = {(a, b): {(a, b)} for a in range(k) for b in range(L)}
    for lp in (itertools.permutations(range(L)) if layerperm else [tuple(range(L))]):
        if {tuple(sorted((lp[a], lp[b]))) for a, b in adjs} != adjs:
            continue
        for p, t in zip(sp.perms, sp.tables):
            if all(masks[lp[a]] == t[masks[a]] for a in range(L)):
                for a in range(k):
                    for b in range(L):
                        rel[(a, b)].add((p[a], lp[b]))
    return {frozenset(v) for v in rel.values()}


# ---------------------------------------------------------------- counting
def counts(fam, n, names, masks_of, layers):
    """Oracle: {(vertex, rooted class): count} over all aggregate-connected vertex sets of 2..n nodes."""
    out = {}
    for k in range(2, n + 1):
        sp = Space.of(k)
        for sub in itertools.combinations(range(len(names)), k):
            masks = []
            for l in range(len(layers)):
                m = 0
                for (a, b) in sp.pairs:
                    if (sub[a], sub[b]) in masks_of[l]:
                        m |= sp.bit[(a, b)]
                masks.append(m)
            if sp.conn(masks):
                for r, v in enumerate(sub):
                    c = (k, fam.canon(k, masks, layers, root=r))
                    out[names[v], c] = out.get((names[v], c), 0) + 1
    return out


_GCACHE = {}


def graphlet_data(pm, rng, fam):
    key = fam.key()
    if key not in _GCACHE:
        G = pm.graphlets
        nets, invs = G.graphlets(fam.n, fam.layers, couplings=fam.coup, allowed_aspects=fam.allowed)
        auts = G.automorphism_orbits(nets, allowed_aspects=fam.allowed)
        olist = G.ordered_orbit_list(G.orbit_numbers(fam.n, nets, auts))
        cls = {}
        for o in olist:
            nodes, layers, masks = fam.read(nets[o[0]][o[1]])
            cls[o] = (o[0], fam.canon(o[0], masks, layers, root=nodes.index(o[2])))
        _GCACHE[key] = (nets, invs, auts, olist, cls)
    return _GCACHE[key]


def host(pm, rng, fam, N, names, density=None):
    """A random network in which to count: real network and pair sets per layer."""
    d = rng.choice([0.1, 0.3, 0.5, 0.8]) if density is None else density
    sets = []
    for _ in fam.layers:
        sets.append({(a, b) for a, b in itertools.combinations(range(N), 2) if rng.random() < d})
    net = pm.MultiplexNetwork(couplings=fam.arg(rng), fullyInterconnected=True)
    for l in gen.shuffled(rng, fam.layers):
        net.add_layer(l)
    for x in gen.shuffled(rng, names):
        net.add_node(x)
    for l, s in zip(fam.layers, sets):
        for a, b in gen.shuffled(rng, s):
            net[names[a], names[b], l] = rng.choice([1, 1, 2, 0.5])
    return net, sets


def small_family(rng, big):
    coup = rng.choice([None, None, "categorical", "ordinal"])
    n, L = rng.choice([(2, 1), (2, 2), (3, 1), (3, 2), (3, 2), (3, 2), (3, 3), (4, 1)])
    if n == 4 and rng.random() < 0.25:
        n = 5
    if rng.random() < big:
        n, L = (4, 2)
        coup = None
    layers = list(range(L)) if coup == "ordinal" or n >= 4 or rng.random() < 0.5 else list("abc")[:L]
    return Fam(n, layers, L, coup, rng.choice(["all", [0]]) if (n, L) != (4, 2) else "all")


class OrbitCounts(core.Check):
    id = "C34"
    quick, thorough = 1600, 12000
    files = GFILES[1:2]
    steps = 200000000
    minima = {"networks": 600, "positive_counts": 10000, "single": 800, "recounts": 250, "five_nodes": 20, "not_full": 40, "keyerrors": 25, "gcd": 150, "three_layers": 50}
    rule = ("case: a random fully interconnected multiplex network; the orbit counts of all nodes, computed together and one by one, "
            "must equal a brute-force count over all connected sets of nodes classified by canonical bit masks, and the network must "
            "not be changed; networks with graphlets outside the list must be refused; correlation distances must equal their formula. "
            "Non-trivial: some positive count of an orbit with three nodes; distinct by network and family")
    assumptions = ["PyBliss is replaced by a stand-in for the PyBliss module", "pandas is not installed: GCM is not run"]

    def before_import(self):
        bliss.install()

    def case(self, rng, cx, i):
        pm = self.pm
        G = pm.graphlets
        if rng.random() < 0.3:
            self.distances(rng, cx)
        fam = small_family(rng, 0.04)
        N = rng.choice([1, 2, 3, 4, 5, 5, 6, 6, 7]) if fam.n < 4 else rng.choice([4, 5, 5])
        names = gen.shuffled(rng, range(N)) if rng.random() < 0.5 else gen.nodes(rng, N)
        nets, invs, auts, olist, cls = graphlet_data(pm, rng, fam)
        net, sets = host(pm, rng, fam, N, names)
        layers = fam.layers
        if fam.allowed == "all" and rng.random() < 0.3 and fam.coup != "ordinal":
            # other names of layers
            new = ["X%d" % k for k in range(len(layers))]
            net = pm.transforms.relabel(net, {}, dict(zip(layers, new)))
        cx.log("family", fam.key(), "nodes", names, "links", [sorted(s) for s in sets])
        before = model.structure(net)
        oc = G.orbit_counts_all(net, fam.n, nets, invs, auts, olist, allowed_aspects=fam.allowed)
        cx.eq("pure", model.structure(net), before, "network changed by orbit_counts_all")
        want = counts(fam, fam.n, names, sets, layers)
        cx.count("networks")
        if len(layers) == 3:
            cx.count("three_layers")
        if fam.n == 5:
            cx.count("five_nodes")
        cx.eq("keys", set(oc), {(v, o) for v in names for o in olist}, "keys of the orbit counts")
        pos3 = False
        for v in names:
            for o in olist:
                w = want.get((v, cls[o]), 0)
                if w:
                    cx.count("positive_counts")
                    pos3 = pos3 or o[0] > 2
                cx.eq("orbit-count", oc[v, o], w, "count of orbit %r at node %r" % (o, v))
        total = sum(want.values())
        cx.eq("orbit-total", sum(oc.values()), total, "total of all orbit counts")
        for v in rng.sample(names, min(2, N)):
            d = {"keep": 1}
            G.orbit_counts(fam.n, v, net, nets, d, auts, invs, olist, allowed_aspects=fam.allowed)
            cx.count("single")
            cx.eq("single-kept", d.pop("keep", None), 1, "other entries of the dictionary")
            if rng.random() < 0.3:   # counting again replaces the counts, whatever they were
                for o in olist:
                    d[v, o] = rng.choice([0, 3, -1])
                G.orbit_counts(fam.n, v, net, nets, d, auts, invs, olist, allowed_aspects=fam.allowed)
                cx.count("recounts")
            cx.eq("single", d, {(v, o): want.get((v, cls[o]), 0) for o in olist}, "orbit counts of node %r" % (v,))
        cx.eq("pure-single", model.structure(net), before, "network changed by orbit_counts")
        if pos3:
            cx.key(fam.key(), names, [sorted(s) for s in sets])
        cx.sample({"family": repr(fam.key()), "links": [sorted(s) for s in sets], "total": total})
        if rng.random() < 0.15 and len(layers) > 1 and N >= 2:
            self.partial(rng, cx, fam, N, names, nets, invs, auts, olist, cls)

    def partial(self, rng, cx, fam, N, names, nets, invs, auts, olist, cls):
        """Not fully interconnected: refused exactly if a connected set has missing node-layers."""
        pm = self.pm
        net = pm.MultiplexNetwork(couplings=fam.arg(rng), fullyInterconnected=False)
        on = {v: set(rng.choice([fam.layers, fam.layers, rng.sample(fam.layers, rng.randrange(1, len(fam.layers) + 1))])) for v in names}
        for l in fam.layers:
            net.add_layer(l)
        for v in names:
            for l in on[v]:
                net.add_node(v, l)
        sets = []
        for l in fam.layers:
            s = {(a, b) for a, b in itertools.combinations(range(N), 2) if l in on[names[a]] and l in on[names[b]] and rng.random() < 0.4}
            sets.append(s)
            for a, b in s:
                net[names[a], names[b], l] = 1
        linked = {names[x] for s in sets for p in s for x in p}
        ok = all(on[v] == set(fam.layers) for v in linked)
        cx.count("not_full")
        f = lambda: pm.graphlets.orbit_counts_all(net, fam.n, nets, invs, auts, olist, allowed_aspects=fam.allowed)
        cx.log("not full", on, sets)
        if not ok:
            cx.count("keyerrors")
            cx.raises("unknown-graphlet", KeyError, f)
        elif all(on[v] == set(fam.layers) for v in names):
            oc = f()
            want = counts(fam, fam.n, names, sets, fam.layers)
            cx.eq("not-full-counts", {x: c for x, c in oc.items() if c}, {(v, o): want[v, cls[o]] for v in names for o in olist if (v, cls[o]) in want},
                  "orbit counts")

    def distances(self, rng, cx):
        G = self.pm.graphlets
        k = rng.choice([1, 2, 3, 5])
        ms = []
        for _ in range(rng.choice([1, 2, 3])):
            m = [[1.0] * k for _ in range(k)]
            for a in range(k):
                for b in range(a):
                    m[a][b] = m[b][a] = rng.uniform(-1, 1)
            ms.append(m)
        import numpy
        arr = [numpy.array(m) for m in ms]
        D = G.GCD_matrix(arr)
        cx.count("gcd")
        for x in range(len(ms)):
            for y in range(len(ms)):
                w = math.sqrt(sum((ms[x][a][b] - ms[y][a][b]) ** 2 for a in range(k) for b in range(a + 1, k)))
                cx.close("gcd", float(G.GCD(arr[x], arr[y])), w, "graphlet correlation distance")
                cx.close("gcd-matrix", float(D[x][y]), w, "matrix of graphlet correlation distances")
        cx.raises("gcd-shape", AssertionError, G.GCD, numpy.ones((k, k)), numpy.ones((k + 1, k + 1)))


class Equations(core.Check):
    id = "C35"
    quick, thorough = 220, 2500
    files = GFILES
    steps = 400000000
    minima = {"equations": 800, "nonzero_equations": 9000, "nonzero_pairs": 3000, "independent_sets": 60, "four_nodes": 5, "five_nodes": 8, "subtrahends": 20}
    rule = ("case: orbit equations of a family of graphlets; there must be one for every pair of orbits that fits into the number of "
            "nodes, and each must hold with the brute-force orbit counts of every node of many random networks: a product of counts (or a "
            "binomial coefficient) equals the sum of coefficients times counts; the independent equations must be linearly independent and "
            "span all of them. Non-trivial: both sides positive; distinct by family and network")
    assumptions = ["PyBliss is replaced by a stand-in for the PyBliss module", "graphlets with at most 4 nodes, or 5 in one layer",
                   "redundant orbits are checked to be determined by the others only for 3 nodes or one layer (documented as a heuristic)"]

    def before_import(self):
        bliss.install()

    def case(self, rng, cx, i):
        import sys
        pm = self.pm
        G = pm.graphlets
        GM = sys.modules["pymnet.graphlets.graphlets"]
        if i % 40 == 0:
            n, L = 4, 2
        elif i % 12 == 5:
            n, L = 5, 1
        else:
            n, L = rng.choice([(3, 1), (3, 2), (3, 2), (3, 2), (3, 3), (4, 1), (4, 1)])
        coup = rng.choice([None, None, "categorical"]) if (n, L) != (4, 2) else None
        layers = rng.choice([list(range(L)), list("abc")[:L], [5, 3, 8][:L]])
        allowed = rng.choice(["all", [0]]) if (n, L) != (4, 2) else "all"
        fam = Fam(n, layers, L, coup, allowed)
        cx.log("family", fam.key())
        if n >= 4:
            cx.count("four_nodes" if n == 4 else "five_nodes")
        nets, invs, auts, olist, cls = graphlet_data(pm, rng, fam)
        ck = ("eq",) + fam.key()
        if ck not in _GCACHE:
            _GCACHE[ck] = G.orbit_equations(n, nets, auts, invs, allowed_aspects=allowed)
        eqs = _GCACHE[ck]
        # one equation per pair
        want = set()
        for a in olist:
            for b in olist:
                if a[0] + b[0] - 1 <= n:
                    want.add(frozenset((a, b)))
        got = {}
        for k in eqs:
            pair = frozenset((k[0],)) if len(k[0]) == 3 else frozenset((k[0][0], k[1][0]))
            cx.true("equation-key", k == ((k[0], 2) if len(k[0]) == 3 else ((k[0][0], 1), (k[1][0], 1))), "key %r" % (k,))
            cx.true("equation-once", pair not in got, "two equations for %r" % (pair,))
            got[pair] = k
        cx.eq("equation-pairs", set(got), want, "pairs of orbits with an equation")
        cx.count("equations", len(eqs))
        subs = {}
        for pair, k in got.items():
            cx.true("coefficients", all(c > 0 and c == int(c) for c in eqs[k].values()), "coefficients %r" % (eqs[k],))
            cx.true("terms", all(o in cls for o in eqs[k]), "orbits %r" % (eqs[k],))
            if len(pair) == 2:
                a, b = sorted(pair, key=lambda o: -o[0])
                skey = ck + (a, b)
                if skey not in _GCACHE:
                    _GCACHE[skey] = GM.subtrahend(a, b, nets, auts, invs, allowed_aspects=allowed)
                subs[pair] = (a, b, _GCACHE[skey])
                if _GCACHE[skey]:
                    cx.count("subtrahends")
        for _ in range(6):
            N = rng.choice([3, 4, 5, 6, 7, 8]) if (n, L) != (4, 2) else rng.choice([4, 5, 6])
            names = list(range(N))
            d = rng.choice([0.2, 0.4, 0.6, 0.9])
            sets = [{(a, b) for a, b in itertools.combinations(range(N), 2) if rng.random() < d} for _ in layers]
            cnt = counts(fam, n, names, sets, layers)
            nz = False
            for v in names:
                c = {o: cnt.get((v, cls[o]), 0) for o in olist}
                for pair, k in got.items():
                    rhs = sum(Fraction(x) * c[o] for o, x in eqs[k].items())
                    if len(pair) == 1:
                        x = c[next(iter(pair))]
                        lhs = x * (x - 1) // 2
                    else:
                        a, b, s = subs[pair]
                        lhs = c[a] * (c[b] - s)
                        if lhs:
                            cx.count("nonzero_pairs")
                    cx.eq("equation", rhs, lhs, "equation %r at a node of network %r" % (k, [sorted(s) for s in sets]))
                    if lhs:
                        cx.count("nonzero_equations")
                        nz = True
            if nz:
                cx.key(fam.key(), [sorted(s) for s in sets])
        if coup is None and n < 5 and ((n, L) != (4, 2) or i % 80 == 0):
            self.independent(rng, cx, fam, eqs)
        cx.sample({"family": repr(fam.key()), "equations": len(eqs)})

    def independent(self, rng, cx, fam, eqs):
        import numpy
        G = self.pm.graphlets
        layers = list(fam.layers)
        if fam.n == 3 and len(layers) < 3 and rng.random() < 0.3:
            layers = layers + [99 if not isinstance(layers[0], str) else "z"]
        args = (fam.n, fam.n_l, layers)
        ck = ("ind", args[0], args[1], tuple(layers), repr(fam.allowed))
        if ck not in _GCACHE:
            inds, e2 = G.independent_equations(*args, allowed_aspects=fam.allowed)
            nets, invs = G.graphlets(fam.n, layers, fam.n_l, allowed_aspects=fam.allowed)
            auts = G.automorphism_orbits(nets, allowed_aspects=fam.allowed)
            on = G.orbit_numbers(fam.n, nets, auts)
            reds = G.redundant_orbits(inds, e2, on, G.ordered_orbit_list(on))
            _GCACHE[ck] = (inds, e2, on, reds)
        inds, e2, on, reds = _GCACHE[ck]
        if layers == fam.layers:
            norm = lambda e: {frozenset((k[0], 2) if len(k[0]) == 3 else (k[0][0], k[1][0])): dict(v) for k, v in e.items()}
            cx.eq("same-equations", norm(e2), norm(eqs), "equations of independent_equations and orbit_equations")
        cx.true("subset", all(k in e2 for k in inds), "independent equations that are no equations")
        row = lambda k: [float(e2[k].get(o, 0)) for o in on]
        A = numpy.array([row(k) for k in inds])
        B = numpy.array([row(k) for k in e2])
        rank = numpy.linalg.matrix_rank
        cx.eq("independent", int(rank(A)), len(inds), "rank of the independent equations")
        cx.eq("spanning", int(rank(B)), len(inds), "rank of all equations")
        cx.eq("redundant-number", len(set(reds)), len(inds), "number of redundant orbits")
        cx.true("redundant-orbits", set(reds) <= {str(o) for o in on}, "redundant orbits %r" % (reds,))
        if fam.n == 3 or fam.n_l == 1:
            cols = [c for c, o in enumerate(on) if str(o) in set(reds)]
            cx.eq("redundant", int(rank(A[:, cols])), len(inds), "rank of the equations in the redundant orbits")
        cx.count("independent_sets")
