"""Monitors for subgraph enumeration and sampling (sampling/)."""
import collections, itertools, math, random
from lib import core, gen, model

SF = ["pymnet/sampling/esu.py", "pymnet/sampling/dumb.py", "pymnet/sampling/reqs.py"]


class World(object):
    """A one-aspect undirected network: node-layers and links, with an independent acceptance oracle."""

    def __init__(self, ref):
        self.ref = ref
        self.nls = ref.node_layers()
        self.adj = {nl: set() for nl in self.nls}
        for a, b in ref.links():
            if a != b:
                self.adj[a].add(b)
                self.adj[b].add(a)
        self.nodes = sorted(ref.nodes, key=repr)
        self.layers = sorted(ref.layers[0], key=repr)

    def induced(self, nodes, layers):
        return {(n, l) for n in nodes for l in layers if (n, l) in self.nls}

    def connected(self, nls):
        if not nls:
            return False
        todo = [next(iter(nls))]
        seen = set(todo)
        while todo:
            for y in self.adj[todo.pop()]:
                if y in nls and y not in seen:
                    seen.add(y)
                    todo.append(y)
        return len(seen) == len(nls)

    def relaxed(self, nodes, layers):
        nls = self.induced(nodes, layers)
        return {n for n, _ in nls} == set(nodes) and {l for _, l in nls} == set(layers) and self.connected(nls)

    def meets(self, nodes, layers, sizes, inter, kind="strict"):
        if not self.relaxed(nodes, layers) or len(layers) != len(sizes):
            return False
        on = {l: {n for n in nodes if (n, l) in self.nls} for l in layers}
        L = len(layers)
        combos = [c for k in range(2, L + 1) for c in itertools.combinations(range(L), k)]
        for perm in itertools.permutations(layers):
            if any(len(on[perm[r]]) != sizes[r] for r in range(L)):
                continue
            ok = True
            for c, want in zip(combos, inter):
                if want is None:
                    continue
                got = len(set.intersection(*[on[perm[r]] for r in c]))
                if (got != want) if kind == "strict" else (got > want):
                    ok = False
                    break
            if ok:
                return True
        return False

    def all(self, nnodes, nlayers, accept):
        out = set()
        for ns in itertools.combinations(self.nodes, nnodes):
            for ls in itertools.combinations(self.layers, nlayers):
                if accept(ns, ls):
                    out.add((frozenset(ns), frozenset(ls)))
        return out

    def signature(self, nodes, layers):
        """Sizes and intersections that this set of node-layers really has."""
        on = [{n for n in nodes if (n, l) in self.nls} for l in layers]
        L = len(layers)
        return [len(s) for s in on], [len(set.intersection(*[on[r] for r in c])) for k in range(2, L + 1)
                                      for c in itertools.combinations(range(L), k)]


def network(rng, big=False):
    """Reference network to enumerate in."""
    n = rng.choice([2, 3, 4, 5, 5, 6, 7]) if not big else rng.choice([8, 9, 10])
    L = rng.choice([1, 2, 2, 3, 3, 4])
    kind = rng.random()
    if kind < 0.7:
        ref = gen.general(rng, aspects=1, directed=False, full=rng.random() < 0.35, n=n, nl=[L],
                          density=rng.choice([0.05, 0.1, 0.15, 0.25, 0.5, 0.9]) * (0.6 if n > 6 else 1),
                          wkind=rng.choice(["unit", "pos", "int"]), noEdge=gen.no_edge(rng), self_loops=rng.random() < 0.2)
    else:
        ref = gen.multiplex(rng, aspects=1, directed=False, n=n, nl=[L], mixed=False, density=rng.choice([0.2, 0.4, 0.7]),
                            wkind=rng.choice(["unit", "pos", "int"]), noEdge=gen.no_edge(rng))
    return ref


def request(rng, w):
    """Random requirements: keyword arguments, number of nodes and layers, acceptance oracle."""
    N, L = len(w.nodes), len(w.layers)
    nn = min(N, rng.choice([1, 2, 2, 3, 3, 4]))
    nl = min(L, rng.choice([1, 1, 2, 2, 3]))
    kind = rng.choice(["relaxed", "relaxed", "strict", "strict", "nones", "int", "less", "less-nones", "custom"])
    if kind == "relaxed":
        return kind, {"nnodes": nn, "nlayers": nl}, nn, nl, w.relaxed
    if kind == "custom":
        thr = rng.choice([0, 1, 2])

        def count_links(nls):
            return sum(len(w.adj[x] & nls) for x in nls) // 2
        acc = lambda ns, ls: w.relaxed(ns, ls) and count_links(w.induced(ns, ls)) % 3 != thr
        return kind, {"nnodes": nn, "nlayers": nl, "custom_check_function": lambda net, ns, ls: acc(ns, ls)}, nn, nl, acc
    # take the numbers from an existing set of node-layers, sometimes perturbed
    cand = [(ns, ls) for ns in itertools.combinations(w.nodes, nn) for ls in itertools.combinations(w.layers, nl) if w.relaxed(ns, ls)]
    if cand and rng.random() < 0.9:
        ns, ls = rng.choice(cand)
        ls = gen.shuffled(rng, ls)
        sizes, inter = w.signature(ns, ls)
    else:
        sizes = [rng.randrange(1, nn + 1) for _ in range(nl)]
        inter = [rng.randrange(0, min(sizes) + 1) for _ in range(2 ** nl - nl - 1)]
    if kind == "strict":
        m, k = sum(sizes), 0
        for c in range(2, nl + 1):
            for _ in itertools.combinations(range(nl), c):
                m += inter[k] * (-1 if c % 2 == 0 else 1)
                k += 1
        return kind, {"sizes": sizes, "intersections": inter}, m, nl, lambda ns, ls: w.meets(ns, ls, sizes, inter)
    if kind == "nones":
        inter = [x if rng.random() < 0.5 else None for x in inter]
        if None not in inter and inter:
            inter[rng.randrange(len(inter))] = None
        if not inter:
            return "strict", {"sizes": sizes, "intersections": inter}, sizes[0], nl, lambda ns, ls: w.meets(ns, ls, sizes, inter)
        return kind, {"sizes": sizes, "intersections": inter, "nnodes": nn}, nn, nl, lambda ns, ls: w.meets(ns, ls, sizes, inter)
    if kind == "int":
        if nl < 2:
            return "relaxed", {"nnodes": nn, "nlayers": nl}, nn, nl, w.relaxed
        c = inter[-1]
        full = [None] * (len(inter) - 1) + [c]
        return kind, {"sizes": sizes, "intersections": c, "nnodes": nn}, nn, nl, lambda ns, ls: w.meets(ns, ls, sizes, full)
    inter = [x + rng.choice([0, 0, 1]) for x in inter]
    if kind == "less-nones":
        inter = [x if rng.random() < 0.5 else None for x in inter]
    kw = {"sizes": sizes, "intersections": inter, "nnodes": nn, "intersection_type": "less_or_equal"}
    return kind, kw, nn, nl, lambda ns, ls: w.meets(ns, ls, sizes, inter, "less")


def tally(cx, mech, res, nn, nl):
    c = collections.Counter()
    for r in res:
        cx.true(mech + "-shape", isinstance(r, tuple) and len(r) == 2 and len(r[0]) == nn and len(r[1]) == nl,
                "result %r does not have %d nodes and %d layers" % (r, nn, nl))
        c[(frozenset(r[0]), frozenset(r[1]))] += 1
    return c


class Enumerate(core.Check):
    id = "C36"
    quick, thorough = 2500, 40000
    files = SF
    minima = {"subgraphs": 20000, "esu_runs": 5000, "dumb_runs": 1500, "strict": 300, "nones": 100, "int": 60, "less": 100,
              "less-nones": 80, "custom": 150, "two_layers_or_more": 800, "full": 400, "multiplex": 400, "empty_results": 300}
    rule = ("case: a random one-aspect network and random requirements (numbers of nodes and layers, sizes and intersections, partly "
            "free, upper bounds, own check function); exhaustive enumeration by both algorithms, with and without copying, into lists or "
            "callables, must give exactly the induced subgraphs found by brute force, each exactly once, and leave the network alone. "
            "Non-trivial: two or more subgraphs found; distinct by network and requirements")
    assumptions = ["undirected networks", "the check function given by the user depends only on the induced subgraph"]

    def case(self, rng, cx, i):
        pm = self.pm
        ref = network(rng, big=rng.random() < 0.04)
        w = World(ref)
        cx.log("network", gen.describe(ref))
        for _ in range(2):
            kind, kw, nn, nl, acc = request(rng, w)
            if nn < 1:
                continue
            cx.log("requirements", kind, {k: v for k, v in kw.items() if k != "custom_check_function"})
            want = w.all(nn, nl, acc)
            cx.count(kind)
            cx.count("subgraphs", len(want))
            if not want:
                cx.count("empty_results")
            if nl > 1:
                cx.count("two_layers_or_more")
            if ref.full:
                cx.count("full")
            if ref.couplings is not None:
                cx.count("multiplex")
            net = model.build(pm, ref, order=gen.shuffled(rng, ref.w))
            before = model.structure(net)
            for algo in (["esu-copy", "esu-nocopy"] + (["dumb"] if len(w.nodes) <= 7 else [])):
                res = []
                sink = res if rng.random() < 0.6 else res.append
                args = dict(kw)
                if algo == "dumb":
                    cx.count("dumb_runs")
                    if nn > len(w.nodes) or nl > len(w.layers):
                        pass
                    f = pm.sampling.dumb.dumb_enumeration
                else:
                    cx.count("esu_runs")
                    f = pm.sampling.esu.sample_multilayer_subgraphs_esu
                    args["copy_network"] = algo == "esu-copy"
                    if rng.random() < 0.3:
                        args["seed"] = rng.choice([1, "x", 99])
                    if rng.random() < 0.3:
                        args["p"] = [rng.choice([1, 1.0])] * (nn + nl - 1)
                f(net, sink, **args)
                got = tally(cx, algo, res, nn, nl)
                twice = [k for k, v in got.items() if v > 1]
                cx.true(algo + "-once", not twice, "found more than once: %r" % (twice[:2],))
                cx.true(algo + "-sound", set(got) <= want, "does not meet the requirements: %r" % (list(set(got) - want)[:2],))
                cx.true(algo + "-complete", want <= set(got), "not found: %r" % (list(want - set(got))[:2],))
                cx.eq(algo + "-pure", model.structure(net), before, "network changed by %s" % algo)
            if len(want) > 1:
                cx.key(gen.sig(ref), kind, {k: v for k, v in kw.items() if k != "custom_check_function"})
            cx.sample({"network": gen.describe(ref), "kind": kind, "found": len(want)})
        if rng.random() < 0.1:
            net = model.build(pm, ref)
            for f in (pm.sampling.dumb.dumb_enumeration, pm.sampling.esu.sample_multilayer_subgraphs_esu):
                bad = rng.choice([{}, {"sizes": [1, 1]}, {"nnodes": 2}, {"nlayers": 1}, {"nnodes": 0, "nlayers": 1}, {"nnodes": 1, "nlayers": -1},
                                  {"sizes": [1, 2], "intersections": [None]}, {"sizes": [1, 2], "intersections": [1], "nnodes": 2, "nlayers": 2},
                                  {"sizes": [1, 2], "intersections": 1}, {"sizes": [1, 2], "intersections": -1, "nnodes": 2},
                                  {"sizes": [1, 2], "intersections": [1], "intersection_type": "less_or_equal"},
                                  {"nnodes": 2, "custom_check_function": lambda a, b, c: True}, {"nnodes": 1.5, "nlayers": 1},
                                  {"nnodes": 1, "nlayers": 1.5}, {"nnodes": 1, "nlayers": 0}, {"intersections": [1]}, {"sizes": [1, 2], "nnodes": 2},
                                  {"nlayers": 2, "custom_check_function": lambda a, b, c: True}, {"sizes": [1, 2], "intersections": [None], "nlayers": 2},
                                  {"sizes": [1, 2], "intersections": [1], "custom_check_function": lambda a, b, c: True},
                                  {"sizes": [1, 2], "intersections": [1], "nnodes": 2}, {"sizes": [1, 2], "intersections": [1], "nlayers": 2},
                                  {"sizes": [1, 2], "intersections": [1], "nnodes": 2, "nlayers": 2, "intersection_type": "less_or_equal"},
                                  {"sizes": [1, 2], "intersections": 1, "nnodes": 2, "nlayers": 2}, {"sizes": [1, 2], "nnodes": 2, "nlayers": 2},
                                  {"intersections": [1], "nnodes": 2, "nlayers": 2}])
                res = []
                cx.raises("refused:%r" % sorted(bad), AssertionError, f, net, res, **bad)
                cx.eq("refused-results", res, [], "results of a refused call")


class Sampling(core.Check):
    id = "C37"
    quick, thorough = 240, 3000
    files = SF[:1]
    steps = 200000000
    minima = {"runs": 30000, "frequencies": 500, "sampled": 30000, "zero": 25, "zero_depths": 300, "deep": 15, "pairs": 300, "seeds": 150, "odd_seeds": 200}
    rule = ("case: a random small network, requirements and sampling probabilities per depth; over many runs with different seeds each "
            "acceptable induced subgraph must be sampled with probability equal to the product of the probabilities (within 7 standard "
            "deviations), never twice in a run and never one that does not meet the requirements; equal seeds give equal samples; "
            "probability zero gives nothing. Non-trivial: product strictly between 0 and 1; distinct by network and probabilities")
    assumptions = ["frequencies are judged within 7 standard deviations over 300 or more runs"]

    def case(self, rng, cx, i):
        pm = self.pm
        f = pm.sampling.esu.sample_multilayer_subgraphs_esu
        want = []
        for _ in range(60):
            ref = network(rng)
            if len(ref.nodes) > 5:
                continue
            w = World(ref)
            kind, kw, nn, nl, acc = request(rng, w)
            if nn < 1:
                continue
            if i % 6 == 5 and (nl < 3 or nn < 2):   # many layers are added one after another
                continue
            want = w.all(nn, nl, acc)
            if 1 <= len(want) <= 25:
                break
        if not 1 <= len(want) <= 25:
            return
        depth = nn + nl - 1
        if depth > 3:
            cx.count("deep")
        net = model.build(pm, ref, order=gen.shuffled(rng, ref.w))
        before = model.structure(net)
        p = [rng.choice([1, 1, 0.5, 0.7, 0.9, 0.35]) for _ in range(depth)]
        if all(x == 1 for x in p):
            p[rng.randrange(depth)] = 0.5
        prod = math.prod(p)
        cx.log("network", gen.describe(ref), "kind", kind, {k: v for k, v in kw.items() if k != "custom_check_function"}, "p", p)
        copy = rng.random() < 0.5
        R = 300
        hits, pairs = collections.Counter(), collections.Counter()
        seed0 = rng.randrange(10 ** 6)
        first = None
        for r in range(R):
            res = []
            f(net, res, p=list(p), seed=seed0 + r, copy_network=copy, **kw)
            got = tally(cx, "sample", res, nn, nl)
            cx.count("runs")
            cx.true("sample-once", all(v == 1 for v in got.values()), "found more than once in a run")
            cx.true("sample-sound", set(got) <= want, "sampled subgraph does not meet the requirements")
            cx.count("sampled", len(got))
            hits.update(got.keys())
            if r < 3:
                again = []
                f(net, again.append, p=tuple(p), seed=seed0 + r, copy_network=copy, **kw)
                cx.eq("seed", again, res, "results of two runs with seed %d" % (seed0 + r))
                cx.count("seeds")
        for sd in rng.sample([0, "", b"", False, "seed", b"\0", -1, 0.0, 10 ** 30], 2):
            one, two = [], []
            random.seed(rng.random())
            f(net, one, p=list(p), seed=sd, copy_network=copy, **kw)
            random.seed(rng.random())
            f(net, two, p=list(p), seed=sd, copy_network=copy, **kw)
            cx.eq("seed", two, one, "results of two runs with seed %r" % (sd,))
            cx.count("odd_seeds")
        sd = math.sqrt(R * prod * (1 - prod))
        for s in want:
            cx.count("frequencies")
            cx.true("frequency", abs(hits[s] - R * prod) <= 7 * sd + 1,
                    "%r sampled %d times in %d runs, expected %.1f +- %.1f (p=%r)" % (s, hits[s], R, R * prod, sd, p))
        tot = sum(hits.values())
        # the total: pairwise covariances are at most those of equal variables
        cx.true("total", abs(tot - len(want) * R * prod) <= 7 * sd * len(want) + 1, "total number of samples %d" % tot)
        cx.count("pairs", len(want))
        for z in range(depth):                  # every probability belongs to its own depth
            q = [1] * depth
            q[z] = 0
            res = []
            f(net, res, p=q, copy_network=copy, **kw)
            cx.eq("zero-depth", res, [], "samples with probability zero at depth %d of %d" % (z, depth))
            cx.count("zero_depths")
        if rng.random() < 0.3:
            q = list(p)
            q[rng.randrange(depth)] = 0
            res = []
            f(net, res, p=q, copy_network=copy, **kw)
            cx.eq("zero", res, [], "samples with a zero probability")
            cx.count("zero")
        cx.eq("pure", model.structure(net), before, "network changed")
        cx.key(gen.sig(ref), p, kind)
        cx.sample({"network": gen.describe(ref), "p": p, "subgraphs": len(want), "hits": sorted(hits.values())})


class Requirements(core.Check):
    id = "C38"
    quick, thorough = 4000, 60000
    files = SF[2:]
    minima = {"true": 6000, "false": 6000, "connected_but_wrong": 3000, "lengths": 3000, "many_layers": 1500, "absent_node": 150, "refused": 1500, "relaxed": 8000, "orders": 3000}
    rule = ("case: a random one-aspect network and random lists of nodes and layers with random requirements close to what the lists "
            "really have; the acceptance functions must agree with an independent definition (connected, no empty node or layer, some "
            "assignment of roles satisfying sizes and intersections), for any order of the lists; required lengths equal a set "
            "construction; wrong arguments are refused. Non-trivial: connected; distinct by network and lists")
    assumptions = ["undirected networks"]

    def case(self, rng, cx, i):
        pm = self.pm
        R = pm.sampling.reqs
        ref = network(rng)
        w = World(ref)
        if not w.nodes or not w.layers:
            return
        net = model.build(pm, ref)
        before = model.structure(net)
        cx.log("network", gen.describe(ref))
        for _ in range(6):
            nn, nl = rng.randrange(1, min(4, len(w.nodes)) + 1), rng.randrange(1, min(4, len(w.layers)) + 1)
            if rng.random() < 0.7:   # grow a connected set
                x = rng.choice(sorted(w.nls, key=repr)) if w.nls else None
                ns, ls = ([x[0]], [x[1]]) if x else (rng.sample(w.nodes, nn), rng.sample(w.layers, nl))
                while x:
                    opts = [y for z in w.induced(ns, ls) for y in sorted(w.adj[z], key=repr)
                            if (y[0] in ns or len(ns) < nn) and (y[1] in ls or len(ls) < nl) and (y[0] not in ns or y[1] not in ls)]
                    if not opts:
                        break
                    y = rng.choice(sorted(opts, key=repr))
                    if y[0] not in ns:
                        ns.append(y[0])
                    if y[1] not in ls:
                        ls.append(y[1])
            else:
                ns, ls = rng.sample(w.nodes, nn), rng.sample(w.layers, nl)
            if rng.random() < 0.2:   # a node that is on none of the layers
                off = [n for n in w.nodes if n not in ns and not any((n, l) in w.nls for l in ls)]
                if off and len(ns) < 4:
                    ns = ns + [rng.choice(off)]
                    if w.connected(w.induced(ns, ls)):
                        cx.count("absent_node")
            nn, nl = len(ns), len(ls)
            cx.log("nodes", ns, "layers", ls)
            want = w.relaxed(ns, ls)
            cx.eq("relaxed", bool(R.relaxed_check_reqs(net, ns, ls)), want, "relaxed_check_reqs(%r,%r)" % (ns, ls))
            cx.count("relaxed")
            if want:
                cx.key(gen.sig(ref), ns, ls)
            sizes, inter = w.signature(ns, gen.shuffled(rng, ls))
            if min(sizes) < 1:
                sizes = [max(1, s) for s in sizes]
            kind = rng.choice(["exact", "exact", "perturb", "perturb", "none", "less", "less", "swap"])
            kw = {}
            if kind in ("perturb", "less"):
                k = rng.randrange(len(sizes) + len(inter))
                d = rng.choice([-1, 1])
                if kind == "perturb" and k < len(sizes):
                    sizes[k] = max(1, sizes[k] + d)
                elif inter:
                    k = k % len(inter)
                    inter[k] = max(0, inter[k] + d)
            elif kind == "none":
                inter = [x if rng.random() < 0.5 else None for x in inter]
            elif kind == "swap" and nl > 1:
                a, b = rng.sample(range(nl), 2)
                sizes[a], sizes[b] = sizes[b], sizes[a]
            mode = "less_or_equal" if kind == "less" or rng.random() < 0.15 else "strict"
            kw["intersection_type"] = mode
            calc = None
            if None not in inter:
                calc = lengths(sizes, inter)
            if calc == (nn, nl) and mode == "strict" and rng.random() < 0.5:
                pass
            else:
                kw["nnodes"] = nn
                if None in inter or mode == "strict" or rng.random() < 0.5:
                    kw["nlayers"] = nl
            want2 = w.meets(ns, ls, sizes, inter, "strict" if mode == "strict" else "less")
            cx.count("true" if want2 else "false")
            if want and not want2:
                cx.count("connected_but_wrong")
            for order in range(2):
                a, b = gen.shuffled(rng, ns), gen.shuffled(rng, ls)
                if order:
                    cx.count("orders")
                cx.eq("default", bool(R.default_check_reqs(net, a, b, list(sizes), list(inter), **kw)), want2,
                      "default_check_reqs(%r,%r,%r,%r,%r)" % (a, b, sizes, inter, kw))
            # a consistent reordering of roles changes nothing
            if nl > 1:
                perm = gen.shuffled(rng, range(nl))
                combos = [c for k in range(2, nl + 1) for c in itertools.combinations(range(nl), k)]
                table = dict(zip(combos, inter))
                s2 = [sizes[x] for x in perm]
                i2 = [table[tuple(sorted(perm[x] for x in c))] for c in combos]
                cx.eq("roles", bool(R.default_check_reqs(net, ns, ls, s2, i2, **kw)), want2, "with renamed roles %r %r" % (s2, i2))
            if rng.random() < 0.5:
                bad = rng.choice([lambda: R.default_check_reqs(net, ns, ls, sizes, inter, nnodes=nn + 1, nlayers=nl),
                                  lambda: R.default_check_reqs(net, ns, ls, sizes, inter, nnodes=nn, nlayers=nl + 1),
                                  lambda: R.default_check_reqs(net, ns, ls, [0] + sizes[1:], inter, nnodes=nn, nlayers=nl),
                                  lambda: R.default_check_reqs(net, ns, ls, sizes, inter, intersection_type="less_or_equal"),
                                  lambda: R.default_check_reqs(net, ns, ls, sizes, inter, nnodes=nn, nlayers=nl, intersection_type="Strict"),
                                  lambda: R.default_check_reqs(net, ns, ls, sizes + [1], [None] * (2 ** (nl + 1) - nl - 2)),
                                  lambda: R.default_calculate_required_lengths([], []),
                                  lambda: R.default_calculate_required_lengths(sizes, [1] * (len(inter) + 1)),
                                  lambda: R.default_calculate_required_lengths([0] + sizes, [1] * (2 ** (nl + 1) - nl - 2)),
                                  lambda: R.default_calculate_required_lengths([1, 2], [-1]),
                                  lambda: R.default_calculate_required_lengths([1, 2], [None]),
                                  lambda: R.default_calculate_required_lengths([1, 2.0], [1]),
                                  lambda: R.default_calculate_required_lengths([1, 2], [0.5]),
                                  lambda: R.default_check_reqs(net, ns, ls, sizes, [None] * len(inter) or [None], nnodes=nn),
                                  lambda: R.default_check_reqs(net, ns, ls, sizes, [None] * len(inter) or [None], nlayers=nl),
                                  lambda: R.default_check_reqs(net, ns, ls, sizes, inter, nlayers=nl, intersection_type="less_or_equal"),
                                  lambda: R.default_check_reqs(net, ns, ls, sizes, [None] * len(inter) or [None], nnodes=nn, intersection_type="less_or_equal")])
                cx.raises("refused", (AssertionError, TypeError), bad)
                cx.count("refused")
            cx.sample({"network": gen.describe(ref), "nodes": repr(ns), "layers": repr(ls), "sizes": sizes, "intersections": inter, "accepted": want2})
        for _ in range(2):
            k = rng.choice([1, 2, 3, 4, 5, 6, 7])
            sets = [set(rng.sample(range(8), rng.randrange(1, 6))) for _ in range(k)]
            sizes = [len(s) for s in sets]
            inter = [len(set.intersection(*c)) for r in range(2, k + 1) for c in itertools.combinations(sets, r)]
            cx.eq("lengths", tuple(R.default_calculate_required_lengths(sizes, inter)), (len(set.union(*sets)), k), "required lengths of %r" % (sets,))
            cx.count("lengths")
            if k > 4:
                cx.count("many_layers")
        cx.eq("pure", model.structure(net), before, "network changed")


def lengths(sizes, inter):
    m, k = sum(sizes), 0
    for c in range(2, len(sizes) + 1):
        for _ in itertools.combinations(range(len(sizes)), c):
            m += inter[k] * (-1 if c % 2 == 0 else 1)
            k += 1
    return m, len(sizes)
