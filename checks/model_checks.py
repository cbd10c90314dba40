"""Monitors for the network models (models.py, sampling/creators.py)."""
import itertools, math
from lib import core, gen, model
from lib.model import Ref, lay

Z = 7.0      # deviations from the expectation (in standard deviations) tolerated in frequency monitors


def freq(cx, mech, hits, trials, p, what):
    """Frequency monitor: hits out of independent trials of probability p."""
    sd = math.sqrt(trials * p * (1 - p))
    cx.count("frequencies")
    cx.true(mech, abs(hits - trials * p) <= Z * sd + 1, "%s: %d of %d with probability %s" % (what, hits, trials, p))


def content(net):
    """{layer: (set of nodes, {frozenset pair: weight})} of a one-aspect network without inter-layer structure."""
    out = {}
    for l in net.iter_layers():
        a = net.A[l]
        out[l] = (set(a), edges(a))
    return out


def edges(net):
    out = {}
    n = 0
    for e in net.edges:
        out[frozenset(e[:2])] = e[2]
        n += 1
    return out, n


def simple(cx, mech, E, nodes, what):
    d, n = E
    cx.eq(mech + ":multi", n, len(d), what + ": number of iterated edges and distinct pairs")
    for k, w in d.items():
        cx.true(mech + ":self", len(k) == 2, "%s: self-link %r" % (what, tuple(k)))
        cx.true(mech + ":node", k <= nodes, "%s: link %r outside the node set" % (what, tuple(k)))
        cx.true(mech + ":weight", w == 1 and w is not True, "%s: weight %r" % (what, w))


class Kind(object):
    @staticmethod
    def check(cx, net, cls, full, couplings=None, what=""):
        cx.eq("kind:class", type(net).__name__, cls, what)
        cx.eq("kind:directed", bool(net.directed), False, what)
        cx.eq("kind:full", bool(net.fullyInterconnected), bool(full), what + " fully interconnected")
        if couplings is not None:
            f = lambda cs: [tuple(c)[:1 if c[0] == "none" else 2] for c in cs]
            cx.eq("kind:couplings", f(net.couplings), f(couplings), what + " couplings")


class ER(core.Check):
    id = "C23"
    quick, thorough = 8000, 80000
    files = ["pymnet/models.py", "pymnet/sampling/creators.py"]
    minima = {"layers": 2000, "edge_counts": 600, "frequencies": 600, "full": 150, "multilayer": 200, "creators": 200, "extreme_p": 200, "nodelists": 100}
    rule = ("case: one call of an Erdos-Renyi type or full network generator with random sizes, node lists, layer names, "
            "couplings, probabilities (0 and 1 included) or edge numbers; node and layer sets, absence of self- and "
            "multi-links, weights, exact numbers of links or completeness are checked, and in frequency cases the number of "
            "occurrences of every possible link over hundreds of calls is compared with its probability (7 standard deviations). "
            "Non-trivial: at least one link; distinct by produced network")

    def case(self, rng, cx, i):
        f = rng.choice([self.er, self.er, self.single, self.single, self.partial, self.full, self.full_multilayer, self.er_multilayer,
                        self.creators, self.frequency if i % 3 == 0 else self.single, self.nodelists])
        cx.log(f.__name__)
        f(rng, cx)

    def p(self, rng, cx):
        p = rng.choice([0, 0.0, 1, 1.0, 0.5, 0.1, 0.9, 0.01, rng.random(), 1e-9, 1e-17, 1e-100])
        if p in (0, 1):
            cx.count("extreme_p")
        return p

    def layer(self, cx, net, nodes, p, m, what):
        """One Erdos-Renyi layer."""
        nodes = set(nodes)
        cx.count("layers")
        l = list(net)
        cx.eq("er:nodes", (set(l), len(l)), (nodes, len(nodes)), what + " nodes")
        E = edges(net)
        simple(cx, "er", E, nodes, what)
        if m is not None:
            cx.count("edge_counts")
            cx.eq("er:edges", len(E[0]), m, what + " number of links")
        elif p in (0, 1) or p < 1e-15:
            cx.eq("er:extreme", len(E[0]), int(p) * len(nodes) * (len(nodes) - 1) // 2, "%s number of links with p=%r" % (what, p))
        if E[0]:
            cx.key(sorted(map(lambda k: sorted(map(repr, k)), E[0])))
        cx.sample({"nodes": len(nodes), "links": len(E[0]), "p": repr(p), "edges": m})

    def single(self, rng, cx):
        pm = self.pm
        n = rng.choice([0, 1, 2, 3, 4, 5, 8, 15, 30])
        nodes = gen.nodes(rng, n, mixed=rng.random() < 0.3, sortable=False)
        n = len(nodes)
        mx = n * (n - 1) // 2
        net = pm.MultilayerNetwork(aspects=0)
        if rng.random() < 0.5:
            m = rng.choice([0, mx, mx // 2, rng.randint(0, mx)])
            cx.log("single_layer_er", nodes, m)
            pm.models.single_layer_er(net, nodes, edges=m)
            self.layer(cx, net, nodes, None, m, "single_layer_er")
        else:
            p = self.p(rng, cx)
            cx.log("single_layer_er", nodes, p)
            pm.models.single_layer_er(net, nodes, p=p)
            self.layer(cx, net, nodes, p, None, "single_layer_er")
        cx.raises("er:both", Exception, pm.models.single_layer_er, pm.MultilayerNetwork(aspects=0), nodes, p=0.5, edges=0)
        cx.raises("er:neither", Exception, pm.models.single_layer_er, pm.MultilayerNetwork(aspects=0), nodes)

    def er(self, rng, cx):
        pm = self.pm
        kind = rng.choice(["mono", "aligned", "lists"])
        use_p = rng.random() < 0.5
        if kind == "mono":
            n = rng.choice([0, 1, 2, 3, 5, 10, 25])
            mx = n * (n - 1) // 2
            a = self.p(rng, cx) if use_p else rng.choice([0, mx, mx // 2])
            cx.log("er", n, use_p, a)
            net = pm.er(n, p=a) if use_p else pm.er(n, edges=a)
            Kind.check(cx, net, "MultilayerNetwork", True, what="er")
            cx.eq("er:aspects", net.aspects, 0)
            self.layer(cx, net, range(n), a if use_p else None, None if use_p else a, "er")
            return
        b = rng.choice([1, 2, 3, 4])
        if kind == "aligned":
            n = rng.choice([1, 2, 3, 5, 10])
            lists = [list(range(n)) for _ in range(b)]
            arg = n
        else:
            pool = gen.nodes(rng, 12, sortable=False)
            lists = [rng.sample(pool, rng.choice([0, 1, 2, 4, 7])) for _ in range(b)]
            arg = lists
        mxs = [len(l) * (len(l) - 1) // 2 for l in lists]
        scalar = kind == "lists" and rng.random() < 0.4
        if use_p:
            ps = [self.p(rng, cx) for _ in lists]
            if scalar:
                ps = ps[:1] * b
            cx.log("er", arg, "p", ps, scalar)
            net = pm.er(arg, p=ps[0] if scalar else ps)
            ms = [None] * b
        else:
            ms = [rng.choice([0, m, rng.randint(0, m)]) for m in mxs]
            if scalar:
                ms = [rng.randint(0, min(mxs))] * b
            cx.log("er", arg, "edges", ms, scalar)
            net = pm.er(arg, edges=ms[0] if scalar else ms)
            ps = [None] * b
        Kind.check(cx, net, "MultiplexNetwork", kind == "aligned", [("categorical", 1.0)], "er")
        cx.eq("er:layers", sorted(net.iter_layers()), list(range(b)), "layers")
        for l in range(b):
            self.layer(cx, net.A[l], lists[l], ps[l], ms[l], "er layer %d" % l)
        if kind == "lists" and len(lists) > 1:
            cx.raises("er:mismatch", AssertionError, pm.er, lists, p=[0.5] * (b + 1))
        cx.raises("er:both", Exception, pm.er, arg, p=[0.5] * b, edges=[0] * b)

    def partial(self, rng, cx):
        pm = self.pm
        pool = gen.nodes(rng, 12, sortable=False)
        b = rng.choice([1, 2, 3, 4])
        lists = [rng.sample(pool, rng.choice([0, 1, 2, 4, 7])) for _ in range(b)]
        ps = [self.p(rng, cx) for _ in lists]
        c = rng.choice([("categorical", 1.0), ("ordinal", 1.0), ("categorical", 0.5)])
        cx.log("er_partially_interconnected", lists, ps, c)
        net = pm.er_partially_interconnected(lists, ps, couplings=c)
        Kind.check(cx, net, "MultiplexNetwork", False, [c], "er_partially_interconnected")
        cx.eq("er:layers", sorted(net.iter_layers()), list(range(b)), "layers")
        cx.eq("er:all-nodes", set(net), set().union(*lists), "nodes")
        for l in range(b):
            self.layer(cx, net.A[l], lists[l], ps[l], None, "er_partially_interconnected layer %d" % l)

    def full(self, rng, cx):
        pm = self.pm
        cx.count("full")
        n = rng.choice([0, 1, 2, 3, 5])
        layers = rng.choice([None, 1, 2, 3, ["a", "b"], ["x"], [3, 1, 7], ("u", "v")])
        c = rng.choice([("categorical", 1.0), ("ordinal", 1.0), ("categorical", 2)]) if layers is None or not isinstance(layers, (list, tuple)) or isinstance(layers[0], int) else ("categorical", 0.5)
        cx.log("full", n, layers, c)
        net = pm.full(n, layers, couplings=c)
        if layers is None:
            Kind.check(cx, net, "MultilayerNetwork", True, what="full")
            cx.eq("full:aspects", net.aspects, 0)
            self.layer(cx, net, range(n), 1, None, "full")
            return
        L = set(layers) if isinstance(layers, (list, tuple)) else set(range(layers))
        Kind.check(cx, net, "MultiplexNetwork", True, [c], "full")
        cx.eq("full:layers", set(net.iter_layers()), L, "layers")
        cx.eq("full:nodes", set(net), set(range(n)), "nodes")
        for l in L:
            self.layer(cx, net.A[l], range(n), 1, None, "full layer")

    def multilayer_content(self, cx, net, n, L, what):
        cx.count("multilayer")
        Kind.check(cx, net, "MultilayerNetwork", True, what=what)
        cx.eq("ml:aspects", net.aspects, 1)
        cx.eq("ml:nodes", set(net), set(range(n)), what + " nodes")
        cx.eq("ml:layers", set(net.iter_layers()), set(L), what + " layers")
        l = [model.split(e, 1) for e in net.edges]
        E = {frozenset((a, b)): w for a, b, w in l}
        cx.eq("ml:once", len(E), len(l), what + " edges listed once")
        return E

    def full_multilayer(self, rng, cx):
        n = rng.choice([0, 1, 2, 3, 4])
        layers = rng.choice([0, 1, 2, 3, ["a", "b"], ("x", "y", "z"), [5]])
        cx.log("full_multilayer", n, layers)
        net = self.pm.full_multilayer(n, layers)
        L = list(layers) if isinstance(layers, (list, tuple)) else list(range(layers))
        E = self.multilayer_content(cx, net, n, L, "full_multilayer")
        want = {frozenset(p): 1 for p in itertools.combinations(itertools.product(range(n), L), 2)}
        cx.eq("ml:full", E, want, "links of full_multilayer")

    def er_multilayer(self, rng, cx):
        n = rng.choice([0, 1, 2, 3, 5, 8])
        layers = rng.choice([1, 2, 3, ["a", "b"], ("x", "y", "z")])
        p, rw = self.p(rng, cx), rng.random() < 0.4
        cx.log("er_multilayer", n, layers, p, rw)
        net = self.pm.er_multilayer(n, layers, p, randomWeights=rw) if rw or rng.random() < 0.5 else self.pm.er_multilayer(n, layers, p)
        L = list(layers) if isinstance(layers, (list, tuple)) else list(range(layers))
        E = self.multilayer_content(cx, net, n, L, "er_multilayer")
        possible = {frozenset(q) for q in itertools.combinations(itertools.product(range(n), L), 2) if q[0][0] != q[1][0]}
        cx.true("ml:possible", set(E) <= possible, "er_multilayer made links outside the possible ones: %r" % (set(E) - possible,))
        if p == 1:
            cx.eq("ml:p1", set(E), possible, "links of er_multilayer with p=1")
        if p == 0:
            cx.eq("ml:p0", len(E), 0, "links of er_multilayer with p=0")
        for k, w in E.items():
            cx.true("ml:weight", (0 < w <= 1) if rw else w == 1, "weight %r" % (w,))
        if rw and len(E) > 5:
            cx.true("ml:random-weights", len(set(E.values())) > len(E) // 2, "random weights repeat: %r" % (sorted(E.values()),))
        if E:
            cx.key(sorted(map(repr, E)))

    def creators(self, rng, cx):
        f = self.pm.sampling.creators.er_multilayer_partially_interconnected
        pool = gen.nodes(rng, 8, sortable=False)
        b = rng.choice([1, 2, 3])
        lists = [rng.sample(pool, rng.choice([0, 1, 2, 4])) for _ in range(b)]
        p = self.p(rng, cx)
        seed = rng.choice([0, 1, 42, "seed", rng.getrandbits(30)])
        cx.log("er_multilayer_partially_interconnected", lists, p, seed)
        cx.count("creators")
        net = f([iter(l) for l in lists], p, seed)
        Kind.check(cx, net, "MultilayerNetwork", False, what="er_multilayer_partially_interconnected")
        nls = {(x, l) for l, ns in enumerate(lists) for x in ns}
        cx.eq("creators:nls", set(net.iter_node_layers()), nls, "node-layers")
        cx.eq("creators:layers", set(net.iter_layers()), set(range(b)), "layers")
        l = [model.split(e, 1) for e in net.edges]
        E = {frozenset((x, y)): w for x, y, w in l}
        cx.eq("creators:once", len(E), len(l))
        possible = {frozenset(q) for q in itertools.combinations(nls, 2)}
        cx.true("creators:possible", set(E) <= possible, "impossible links")
        cx.eq("creators:weights", set(E.values()) - {1}, set(), "weights")
        if p in (0, 1):
            cx.eq("creators:extreme", len(E), p * len(possible), "number of links with p=%r" % (p,))
        cx.true("creators:seed", f(lists, p, seed) == net, "the same seed gave another network")

    def probes(self):
        def xr(cx):
            try:
                r = list(self.pm.sampling.creators.random_nodelists(5, 2, 3, 0))
            except NameError as e:
                raise core.Violation("probe:random-nodelists-xrange", str(e))
            cx.eq("probe:nodelists", [len(set(l)) for l in r], [2, 2, 2], "sizes of lists")
        return [("probe:random-nodelists-xrange", xr)]

    def nodelists(self, rng, cx):
        # the name xrange, missing in Python 3 (see the probe), is provided while the function runs
        creators = self.pm.sampling.creators

        def f(*a):
            had = hasattr(creators, "xrange")
            if not had:
                creators.xrange = range
            try:
                return list(creators.random_nodelists(*a))
            finally:
                if not had:
                    del creators.xrange
        pool = rng.choice([1, 3, 10, 50])
        k = rng.randint(0, pool)
        b = rng.choice([0, 1, 2, 5])
        seed = rng.choice([None, 0, 5, "x"])
        cx.count("nodelists")
        cx.log("random_nodelists", pool, k, b, seed)
        r = list(f(pool, k, b, seed))
        cx.eq("nodelists:layers", len(r), b, "number of lists")
        for l in r:
            cx.eq("nodelists:size", (len(l), len(set(l))), (k, k), "distinct nodes per list")
            cx.true("nodelists:pool", set(l) <= set(range(pool)), "nodes outside the pool")
        if seed is not None:
            cx.eq("nodelists:seed", list(f(pool, k, b, seed)), r, "the same seed")
        # reseeded from the clock when no seed is given: restore a reproducible state
        import random
        random.seed(rng.getrandbits(32))

    def frequency(self, rng, cx):
        """Every possible link occurs with its probability."""
        pm = self.pm
        kind = rng.choice(["single-p", "single-edges", "er-multiplex", "multilayer", "creators"])
        T = 400
        n = rng.choice([2, 3, 4, 5, 6])
        p = rng.choice([0.1, 0.3, 0.5, 0.8, 0.95, 0.02, 0.97, 0.98, rng.uniform(0.02, 0.98)])
        hits, possible, joint, total = {}, set(), {}, 0
        cx.log("frequency", kind, n, p)
        for t in range(T):
            if kind == "single-p" or kind == "single-edges":
                net = pm.MultilayerNetwork(aspects=0)
                nodes = list(range(n))
                mx = n * (n - 1) // 2
                if kind == "single-p":
                    pm.models.single_layer_er(net, nodes, p=p)
                else:
                    m = max(1, mx // 2)
                    pm.models.single_layer_er(net, nodes, edges=m)
                    p = m / float(mx)
                E = [frozenset(e[:2]) for e in net.edges]
                possible = {frozenset(q) for q in itertools.combinations(nodes, 2)}
            elif kind == "er-multiplex":
                net = pm.er(n, p=[p, p])
                E = [(l, frozenset(e[:2])) for l in (0, 1) for e in net.A[l].edges]
                possible = {(l, frozenset(q)) for l in (0, 1) for q in itertools.combinations(range(n), 2)}
            else:
                n = min(n, 4)
                if kind == "multilayer":
                    net = pm.er_multilayer(n, 2, p)
                else:
                    net = pm.sampling.creators.er_multilayer_partially_interconnected([range(n), range(1, n)], p, seed=rng.getrandbits(40))
                E = [frozenset(model.split(e, 1)[:2]) for e in net.edges]
                nls = list(itertools.product(range(n), [0, 1])) if kind == "multilayer" else [(x, 0) for x in range(n)] + [(x, 1) for x in range(1, n)]
                possible = {frozenset(q) for q in itertools.combinations(nls, 2) if kind == "creators" or q[0][0] != q[1][0]}
            for e in E:
                hits[e] = hits.get(e, 0) + 1
            total += len(E)
            for a, b in itertools.combinations(E, 2):
                k = frozenset((a, b))
                joint[k] = joint.get(k, 0) + 1
        cx.true("freq:possible", set(hits) <= possible, "impossible links %r" % (set(hits) - possible,))
        for e in possible:
            freq(cx, "freq:" + kind, hits.get(e, 0), T, p, "link %r" % (e,))
        if kind != "single-edges":
            freq(cx, "freq-all:" + kind, total, T * len(possible), p, "all links together")
        # independence
        if kind == "single-edges":
            q = m * (m - 1) / float(mx * (mx - 1)) if mx > 1 else 0
        else:
            q = p * p
        if T * q * (1 - q) > 10:
            for a, b in itertools.combinations(possible, 2):
                cx.count("joint")
                freq(cx, "freq-joint:" + kind, joint.get(frozenset((a, b)), 0), T, q, "links %r and %r together" % (a, b))


def degseq(rng, n, kind):
    """Degree sequence with an even sum for which the configuration model finds a simple graph easily."""
    if kind == "sparse":
        d = [rng.choice([0, 0, 1, 1, 1, 2, 2, 3]) for _ in range(n)]
    elif kind == "regular":
        d = [rng.choice([1, 2, 3])] * n
    else:
        d = [rng.choice([0, 1, 1, 2]) for _ in range(n)]
        d[0] = rng.choice([5, 6, 7])
    if sum(d) % 2:
        d[-1] += 1
    return d


def names100(rng):
    """A hundred names of nodes: numbers, strings or both (which have no common order)."""
    k = rng.randrange(5)
    return [x if k < 2 or (k == 4 and x % 3) else "n%02d" % x for x in range(100)]


class Conf(core.Check):
    id = "C24"
    quick, thorough = 6000, 60000
    files = ["pymnet/models.py"]
    minima = {"layers": 1800, "conf": 500, "from_network": 200, "distribution": 300, "overlaps": 150, "overlap_combinations": 400, "rewired_possible": 300}
    rule = ("case: a realizable sparse degree sequence per layer (30-80 nodes; given as node degrees, distributions, networks, "
            "or overlap degrees per layer combination); the produced network must be simple with weight one and have exactly "
            "these degrees, nodes, layers and couplings, and overlap degrees exactly as prescribed. Non-trivial: more than ten "
            "links; distinct by produced links")
    assumptions = ["degree sequences are sparse with 30 or more nodes (the generator's rewiring loop is documented not to restart)"]

    def layer(self, cx, net, want, what):
        cx.count("layers")
        E = edges(net)
        nodes = set(net)
        cx.eq("conf:nodes", nodes, set(want), what + " nodes")
        simple(cx, "conf", E, nodes, what)
        deg = {x: 0 for x in nodes}
        for k in E[0]:
            for x in k:
                deg[x] += 1
        cx.eq("conf:degrees", deg, want, what + " degrees")
        if len(E[0]) > 10:
            cx.key(sorted(sorted(map(repr, k)) for k in E[0]))
            cx.count("rewired_possible")

    def dlayer(self, cx, net, dist, what):
        cx.count("distribution")
        n = sum(dist.values())
        cx.eq("conf:nodes", set(net), set(range(n)), what + " nodes")
        E = edges(net)
        simple(cx, "conf", E, set(net), what)
        deg = {x: 0 for x in net}
        for k in E[0]:
            for x in k:
                deg[x] += 1
        h = {}
        for v in deg.values():
            h[v] = h.get(v, 0) + 1
        cx.eq("conf:distribution", h, {k: v for k, v in dist.items() if v}, what + " degree distribution")

    def case(self, rng, cx, i):
        pm = self.pm
        if i % 4 == 3:
            return self.overlaps(rng, cx)
        b = rng.choice([0, 0, 1, 2, 3])
        n = rng.choice([30, 35, 40, 60, 80])
        kind = rng.choice(["sparse", "regular", "hub"])
        c = rng.choice([("categorical", 1.0), ("ordinal", 1.0), ("categorical", 0.5), ("none",)])
        pool = names100(rng)
        aligned = rng.random() < 0.6
        base = rng.sample(pool, n)
        cx.count("conf")

        def seq():
            m = n if aligned else rng.choice([30, n])
            ns = base if aligned else rng.sample(pool, m)
            return dict(zip(gen.shuffled(rng, ns), degseq(rng, len(ns), kind)))

        def dist():
            d = {}
            for k in degseq(rng, n if aligned else rng.choice([30, 31, n]), kind):
                d[k] = d.get(k, 0) + 1
            return d

        how = rng.choice(["nodes", "distribution", "network"])
        if b == 0:
            if how == "nodes":
                d = seq()
                cx.log(how, d)
                odd = dict(d)
                odd[rng.choice(sorted(d, key=repr))] += 1
                cx.raises("conf:odd", AssertionError, pm.conf, odd, degstype="nodes")
                self.layer(cx, pm.conf(d, degstype="nodes"), d, "conf")
                net = pm.MultilayerNetwork(aspects=0)
                pm.single_layer_conf(net, d, degstype="nodes")
                self.layer(cx, net, d, "single_layer_conf")
            elif how == "distribution":
                d = dist()
                cx.log(how, d)
                self.dlayer(cx, pm.conf(d), d, "conf")
                net = pm.MultilayerNetwork(aspects=0)
                pm.single_layer_conf(net, d)
                self.dlayer(cx, net, d, "single_layer_conf")
            else:
                d = seq()
                src = pm.conf(d, degstype="nodes")
                cx.count("from_network")
                self.layer(cx, pm.conf(src), d, "conf of a network")
                self.layer(cx, src, d, "original of conf")
            return
        names = gen.layers(rng, b, "ordinal" if c[0] == "ordinal" else None)
        as_list = rng.random() < 0.3
        if as_list:
            names = list(range(b))
        if how == "distribution":
            ds = {l: dist() for l in names}
            cx.log(how, ds)
            net = pm.conf([ds[l] for l in names] if as_list else ds, couplings=c)
            Kind.check(cx, net, "MultiplexNetwork", len({sum(d.values()) for d in ds.values()}) == 1, None, "conf")
            cx.eq("conf:layers", set(net.iter_layers()), set(names), "layers")
            for l in names:
                self.dlayer(cx, net.A[l], ds[l], "conf layer %r" % (l,))
            return
        ds = {l: seq() for l in names}
        cx.log(how, ds)
        al = len({frozenset(d) for d in ds.values()}) == 1
        net = pm.conf([ds[l] for l in names] if as_list else ds, degstype="nodes", couplings=c)
        nets = [(net, "conf")]
        if how == "network":
            cx.count("from_network")
            nets.append((pm.conf(net, couplings=c), "conf of a network"))
        for net, what in nets:
            Kind.check(cx, net, "MultiplexNetwork", al, [c], what)
            cx.eq("conf:layers", set(net.iter_layers()), set(names), "layers")
            for l in names:
                self.layer(cx, net.A[l], ds[l], "%s layer %r" % (what, l))

    def overlaps(self, rng, cx):
        pm = self.pm
        cx.count("overlaps")
        b = rng.choice([1, 2, 3])
        L = gen.layers(rng, b)
        n = rng.choice([40, 50, 70])
        nodes = names100(rng)[:n]
        combs = [c for k in range(1, b + 1) for c in itertools.combinations(L, k)]
        rng.shuffle(combs)
        combs = combs[:rng.choice([1, 3, 7])]
        ol = {}
        for c in combs:
            ol[c] = dict(zip(gen.shuffled(rng, nodes), degseq(rng, n, rng.choice(["sparse", "hub", "few"]))))
        cx.log("conf_overlaps", ol)
        coup = rng.choice([None, "categorical", [("categorical", 0.5)]])
        net = pm.models.conf_overlaps(ol, couplings=coup)
        Kind.check(cx, net, "MultiplexNetwork", True, None, "conf_overlaps")
        cx.eq("overlaps:nodes", set(net), set(nodes), "nodes")
        used = {l for c in combs for l in c}
        cx.eq("overlaps:layers", set(net.iter_layers()), used, "layers")
        where = {}
        for l in used:
            E = edges(net.A[l])
            simple(cx, "overlaps", E, set(nodes), "layer %r" % (l,))
            for k in E[0]:
                where.setdefault(k, set()).add(l)
        got = {}
        for k, ls in where.items():
            d = got.setdefault(frozenset(ls), {})
            for x in k:
                d[x] = d.get(x, 0) + 1
        want = {}
        for c, d in ol.items():
            cx.count("overlap_combinations")
            want[frozenset(c)] = {x: v for x, v in d.items() if v}
        cx.eq("overlaps:degrees", got, {c: d for c, d in want.items() if d}, "overlap degrees")
        cx.key(sorted(sorted(map(repr, k)) for k in where))
        # Erdos-Renyi network with prescribed overlaps
        n, m = rng.choice([20, 30]), rng.choice([5, 10, 20])
        b = rng.choice([2, 3])
        L = gen.layers(rng, b)
        combs = [c for k in range(2, b + 1) for c in itertools.combinations(L, k)]
        combs = rng.sample(combs, rng.randint(1, min(2, len(combs))))
        ps = {c: rng.choice([0, 0.2, 0.25, 0.4]) for c in combs}
        for l in L:
            if not any(l in c for c in combs) or rng.random() < 0.3:
                ps[(l,)] = 0.5
        keys = gen.shuffled(rng, ps)
        ps = {k: ps[k] for k in keys}
        cx.log("er_overlaps_match_aggregated", n, m, ps)
        net = pm.models.er_overlaps_match_aggregated(n, m, ps)
        cx.eq("eroverlaps:nodes", set(net), set(range(n)), "nodes")
        cx.eq("eroverlaps:layers", set(net.iter_layers()), set(L), "layers")
        where = {}
        for l in L:
            E = edges(net.A[l])
            simple(cx, "eroverlaps", E, set(range(n)), "layer %r" % (l,))
            for k in E[0]:
                where.setdefault(k, set()).add(l)
        cx.eq("eroverlaps:aggregated", len(where), m * b, "links of the aggregated network")
        cnt = {}
        for ls in where.values():
            cnt[frozenset(ls)] = cnt.get(frozenset(ls), 0) + 1
        want = {frozenset((l,)): m for l in L}
        for c, p in ps.items():
            if len(c) > 1:
                q = int(round(p * m))
                want[frozenset(c)] = len(c) * q
                for l in c:
                    want[frozenset((l,))] -= q
        cx.eq("eroverlaps:counts", cnt, {k: v for k, v in want.items() if v}, "number of links per layer combination")


_INC = {}


def inclusion(w, m):
    """Probabilities that each item is among m drawn one after another with weights w without repetition."""
    if (w, m) not in _INC:
        P = [0.0] * len(w)

        def draw(left, p, k, s):
            for x in left:
                if w[x]:
                    q = p * w[x] / s
                    P[x] += q
                    if k > 1:
                        draw([y for y in left if y != x], q, k - 1, s - w[x])
        draw(range(len(w)), 1.0, m, float(sum(w)))
        _INC[(w, m)] = P
    return _INC[(w, m)]


class Growth(core.Check):
    id = "C25"
    quick, thorough = 4000, 40000
    files = ["pymnet/models.py"]
    minima = {"ba": 400, "ws": 200, "geo": 200, "frequencies": 40, "attached": 500}
    rule = ("case: Barabasi-Albert (total degree), Watts-Strogatz or geometric multiplex model with random sizes; nodes, layers, "
            "couplings, simplicity, number of links (Barabasi-Albert: each new node brings exactly its number of links to older "
            "nodes in each layer; Watts-Strogatz: prescribed number; geometric: approximately) and, over hundreds of calls, "
            "attachment frequencies proportional to total degree. Non-trivial: at least one link; distinct by produced links")

    def case(self, rng, cx, i):
        f = self.attach if i % 25 == 4 else [self.ba, self.ws, self.ba, self.geo, self.ba, self.ws][i % 6]
        cx.log(f.__name__)
        f(rng, cx)

    def basic(self, cx, net, n, L, c, what):
        Kind.check(cx, net, "MultiplexNetwork", True, c, what)
        cx.eq("growth:nodes", set(net), set(range(n)), what + " nodes")
        cx.eq("growth:layers", set(net.iter_layers()), set(L), what + " layers")
        out = {}
        for l in L:
            E = edges(net.A[l])
            simple(cx, "growth", E, set(range(n)), "%s layer %r" % (what, l))
            out[l] = E[0]
        if any(out.values()):
            cx.key(what, sorted((l, sorted(sorted(k) for k in d)) for l, d in out.items()))
        return out

    COUP = [(None, None), ("categorical", [("categorical", 1.0)]), ([("ordinal", 0.5)], [("ordinal", 0.5)])]

    def ba(self, rng, cx):
        cx.count("ba")
        n = rng.choice([0, 1, 2, 3, 5, 8, 15, 30])
        ms = [rng.choice([0, 1, 1, 2, 3, 5]) for _ in range(rng.choice([1, 2, 3]))]
        c, want = rng.choice(self.COUP)
        cx.log("ba_total_degree", n, ms, c)
        net = self.pm.models.ba_total_degree(n, ms, couplings=c)
        E = self.basic(cx, net, n, range(len(ms)), want, "ba_total_degree")
        for l, m in enumerate(ms):
            older = [0] * n
            for k in E[l]:
                older[max(k)] += 1
            cx.eq("ba:links", older, [0 if x < m else m for x in range(n)], "links of each new node to older nodes in layer %d with m=%d" % (l, m))

    def attach(self, rng, cx):
        """The targets of a new node are drawn one after another, each with probability proportional to the
        total degree the older nodes have when it arrives, without repetition. Given the network before its
        arrival the chance of each older node is exact, so deviations sum up to a martingale."""
        ms = rng.choice([[1], [1, 1], [1, 1, 1], [2], [3], [4], [1, 3], [2, 2], [4, 1], [3, 0, 2]])
        T = 400
        n = rng.choice([4, 5, 6, 7])
        num = {}
        cx.log("attachment", ms, n)
        for _ in range(T):
            net = self.pm.models.ba_total_degree(n, list(ms))
            E = [[tuple(sorted(e[:2])) for e in net.A[l].edges] for l in range(len(ms))]
            tot = dict.fromkeys(range(n), 0)
            for i in range(n):
                chosen = [[x for x, y in E[l] if y == i] for l in range(len(ms))]
                for l, m in enumerate(ms):
                    if not 0 < m < i:
                        continue
                    cx.eq("attach:number", len(chosen[l]), m, "links of node %d" % i)
                    P = inclusion(tuple(tot[x] for x in range(i)), m)
                    for x in range(i):
                        a = num.setdefault((l, i, x), [0.0, 0.0])
                        a[0] += (x in chosen[l]) - P[x]
                        a[1] += P[x] * (1 - P[x])
                for c in chosen:
                    for x in c:
                        tot[x] += 1
                        tot[i] += 1
        for k, (d, v) in num.items():
            cx.count("attached")
            cx.true("attach:frequency", abs(d) <= Z * math.sqrt(v) + 3, "node %d was chosen by node %d %+.1f times off its share in layer %d (sd %.1f, m=%r)" % (k[2], k[1], d, k[0], math.sqrt(v), ms))

    def ws(self, rng, cx):
        cx.count("ws")
        n = rng.choice([5, 8, 10, 20])
        ks = [rng.choice([k for k in range(0, 5) if 2 * k < n]) for _ in range(rng.choice([1, 2, 3]))]
        c, want = rng.choice(self.COUP)
        p = rng.choice([0, 0.3, 1, 0.5])
        cx.log("ws", n, ks, p)
        net = self.pm.models.ws(n, [k * n for k in ks], p=p, couplings=c)
        E = self.basic(cx, net, n, range(len(ks)), want, "ws")
        for l, k in enumerate(ks):
            cx.eq("ws:links", len(E[l]), k * n, "number of links in layer %d" % l)
            if p == 0:
                ring = {frozenset((x, (x + d) % n)) for x in range(n) for d in range(1, k + 1)}
                cx.eq("ws:ring", set(E[l]), ring, "ring of layer %d without rewiring" % l)

    def geo(self, rng, cx):
        cx.count("geo")
        n = rng.choice([2, 3, 5, 10, 40])
        ms = [rng.choice([0, 1, 3, n, 2 * n]) for _ in range(rng.choice([1, 2, 3]))]
        c, want = rng.choice(self.COUP)
        cx.log("geo", n, ms)
        net = self.pm.models.geo(n, ms, couplings=c)
        E = self.basic(cx, net, n, range(len(ms)), want, "geo")
        for l, m in enumerate(ms):
            if m == 0:
                cx.eq("geo:none", len(E[l]), 0, "links of a layer with no links wanted")
        if n == 40:
            tot = [0, 0]
            for _ in range(10):
                net = self.pm.models.geo(60, [100, 150])
                for l in (0, 1):
                    tot[l] += len(edges(net.A[l])[0])
            cx.count("frequencies")
            cx.true("geo:approximate", 700 < tot[0] < 1300 and 1000 < tot[1] < 2000, "numbers of links in ten networks with 100 and 150 wanted: %r" % (tot,))
