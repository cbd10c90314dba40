"""Monitors for diagnostics.py."""
import heapq, itertools, sys
from lib import core, gen, model
from lib.model import Ref, Index, interleave, lay


class DegreeStats(core.Check):
    id = "C17"
    quick, thorough = 2500, 30000
    files = ["pymnet/diagnostics.py"]
    minima = {"degs": 3000, "density": 1500, "overlap": 200, "overlap_shared": 100, "multiplex": 600}
    rule = ("case: random general or multiplex network; degree listings and distributions, densities, per-layer "
            "densities and degrees, and overlap degrees (layer combination -> node -> number of links in exactly those "
            "layers) are compared with counts over the reference links. Non-trivial: at least one link; distinct by "
            "network")

    def case(self, rng, cx, i):
        pm = self.pm
        D = pm.diagnostics
        mp = rng.random() < 0.6
        if mp:
            ref = gen.multiplex(rng, aspects=rng.choice([1, 1, 1, 2]), sortable=False, noEdge=gen.no_edge(rng))
        else:
            ref = gen.general(rng, sortable=False, self_loops=False, noEdge=gen.no_edge(rng))
        net = model.build(pm, ref, gen.shuffled(rng, ref.w))
        cx.log(gen.describe(ref))
        cx.sample(gen.describe(ref))
        ix = Index(ref)
        deg = {lay_key(nl): len(ix.neigh(nl, "tot")) for nl in ref.node_layers()}
        dist = hist(deg.values())
        for f in (D.degs, pm.degs):
            cx.eq("degs:default", f(net), dist, "degree distribution")
            cx.eq("degs:distribution", f(net, degstype="distribution"), dist, "degree distribution")
            cx.eq("degs:nodes", f(net, degstype="nodes"), deg, "degrees by node")
            cx.count("degs")
        cx.raises("degs:invalid", Exception, D.degs, net, degstype="no such type")
        n = len(ref.node_layers())
        pe = n * (n - 1) / (1.0 if ref.directed else 2.0)
        cx.count("density")
        cx.close("density", D.density(net), (len(ix.edges()) / pe) if pe else 0, "density")
        if mp:
            cx.count("multiplex")
            md = D.multiplex_density(net)
            mg = D.multiplex_degs(net)
            mn = D.multiplex_degs(net, degstype="nodes")
            cx.eq("multiplex:layers", set(md), {lay(x) for x in ref.all_layers()}, "layers of multiplex_density")
            cx.eq("multiplex:layers", set(mg), {lay(x) for x in ref.all_layers()}, "layers of multiplex_degs")
            for L in ref.all_layers():
                ns = ref.nodes if ref.full else {nl[0] for nl in ref.nls if nl[1:] == L}
                E = {(a[0], b[0]) for (a, b) in ref.w if a[1:] == L}
                m = len(E) if ref.directed else len(E) / 2
                p = len(ns) * (len(ns) - 1) / (1.0 if ref.directed else 2.0)
                cx.close("multiplex:density", md[lay(L)], m / p if p else 0, "density of layer %r" % (L,))
                dg = {x: len({b for a, b in E if a == x} | {a for a, b in E if b == x}) for x in ns}
                cx.eq("multiplex:degs", mn[lay(L)], dg, "degrees in layer %r" % (L,))
                cx.eq("multiplex:distribution", mg[lay(L)], hist(dg.values()), "degree distribution of layer %r" % (L,))
            if ref.aspects == 1 and not ref.directed and ref.full:
                self.overlap(cx, net, ref)
        model.compare(cx, net, ref, "original-changed", rng=rng, maxpairs=100)
        if ref.w:
            cx.key(gen.sig(ref))

    def overlap(self, cx, net, ref):
        got = self.pm.diagnostics.overlap_degs(net)
        where = {}
        for (a, b) in ref.w:
            where.setdefault((a[0], b[0]), set()).add(a[1])
        g = {frozenset(k): v for k, v in got.items()}
        cx.eq("overlap:distinct", len(g), len(got), "distinct layer combinations")
        L = sorted(ref.layers[0], key=repr)
        want = {frozenset(c) for k in range(1, len(L) + 1) for c in itertools.combinations(L, k)}
        cx.eq("overlap:combinations", set(g), want, "layer combinations")
        cx.count("overlap")
        for c in want:
            d = {n: 0 for n in ref.nodes}
            for (a, b), ls in where.items():
                if ls == c:
                    d[a] += 1
                    if len(c) > 1:
                        cx.count("overlap_shared")
            cx.eq("overlap:degrees", {n: g[c].get(n, 0) for n in ref.nodes}, d, "overlap degrees of layers %r" % (sorted(c, key=repr),))


def lay_key(nl):
    return nl[0] if len(nl) == 1 else nl


def hist(v):
    h = {}
    for x in v:
        h[x] = h.get(x, 0) + 1
    return h


def distances(ix, sources):
    d = {s: 0 for s in sources}
    done, k = set(), itertools.count()
    q = [(0, next(k), s) for s in d]
    heapq.heapify(q)
    while q:
        x, _, n = heapq.heappop(q)
        if n in done:
            continue
        done.add(n)
        for m, w in ix.out.get(n, {}).items():
            if m not in d or x + w < d[m]:
                d[m] = x + w
                heapq.heappush(q, (d[m], next(k), m))
    return d


class TooManySteps(Exception):
    pass


def bounded(cx, mech, limit, f):
    """The value of f(), or None and a violation if the library executes more lines than the limit."""
    mon, tool, n = sys.monitoring, 3, [0]

    def line(code, lineno):
        if not code.co_filename.startswith(core.REPO + "/pymnet"):
            return mon.DISABLE
        n[0] += 1
        if n[0] > limit:
            mon.set_events(tool, 0)
            raise TooManySteps()

    if mon.get_tool(tool) is None:
        mon.use_tool_id(tool, "verif-steps")
    mon.register_callback(tool, mon.events.LINE, line)
    mon.set_events(tool, mon.events.LINE)
    try:
        out = f()
    except TooManySteps:
        out = None
    finally:
        mon.set_events(tool, 0)
    cx.count("step_bounds")
    cx.true(mech, n[0] <= limit, "more than %d steps" % limit)
    return out


def netw(rng, cx, pm, aspects=None):
    """Network with exactly representable weights, zeros only where they do not mean a missing link."""
    if rng.random() < 0.03:
        return special(rng, cx, pm, aspects)
    mp = rng.random() < 0.4
    zeros = rng.random() < 0.3
    w = lambda: 0 if zeros and ref.noEdge != 0 and rng.random() < 0.4 else rng.choice([1, 1, 1, 2, 3, 0.25, 0.5, 4, 7.75, 100])
    if mp:
        ref = gen.multiplex(rng, aspects=aspects or rng.choice([1, 1, 2]), sortable=False, noEdge=gen.no_edge(rng))
        ref.couplings = [(c[0], abs(c[1])) if c[0] in ("categorical", "ordinal") else c for c in ref.couplings]
    else:
        ref = gen.general(rng, aspects=aspects if aspects is not None else rng.choice([0, 0, 1, 1, 2]), sortable=False,
                          self_loops=rng.random() < 0.2, density=rng.choice([0.1, 0.2, 0.4]),
                          n=rng.choice([3, 4, 5, 6, 8, 12]), noEdge=gen.no_edge(rng))
    for (a, b) in sorted(ref.w, key=repr):
        ref.set(a, b, w())
    if any(v == 0 for v in ref.w.values()):
        cx.count("zero_weights")
    net = model.build(pm, ref, gen.shuffled(rng, ref.w))
    cx.log(gen.describe(ref))
    cx.sample(gen.describe(ref))
    return ref, net


def special(rng, cx, pm, aspects):
    """Networks with exponentially many shortest paths, and networks with very long paths."""
    if aspects is None:
        aspects = rng.choice([0, 1])
    ref = model.Ref(aspects=aspects, directed=rng.random() < 0.5, full=aspects == 0)
    place = lambda x: (x,) + tuple("l" if a else rng.choice("lm") for a in range(aspects))
    if rng.random() < 0.8:
        k, width = rng.choice([(14, 2), (9, 3), (16, 2)])
        ends = [place(x) for x in range(k + 1)]
        for x in range(k):
            for y in range(width):
                m = place("m%d-%d" % (x, y))
                ref.set(ends[x], m, 1)
                ref.set(m, ends[x + 1], 1)
        cx.count("many_paths")
    else:
        n = rng.randint(1100, 1500)
        prev = place(0)
        for x in range(1, n):
            nxt = place(x)
            ref.set(prev, nxt, 1)
            prev = nxt
        cx.count("long_paths")
    cx.log("special", ref.directed, aspects, len(ref.w))
    return ref, model.build(pm, ref, None)


def limit(ref, ix):
    size = len(ref.node_layers()) + len(ix.L)
    return 20000 + 40 * size * min(size, 200) + 1000 * size


class Dijkstra(core.Check):
    id = "C18"
    quick, thorough = 4000, 60000
    files = ["pymnet/diagnostics.py"]
    minima = {"searches": 3000, "reached": 8000, "ties": 300, "directed": 800, "several_sources": 800, "zero_weights": 40, "many_paths": 15, "step_bounds": 3000}
    rule = ("case: random directed or undirected general or multiplex network with nonnegative, exactly representable "
            "weights and one or several sources; distances compared with an independent shortest path computation over "
            "the reference links, reachable set, and the forest with the set of links lying on shortest paths. "
            "Non-trivial: a node at two or more links from the sources; distinct by network and sources")
    assumptions = ["weights are not negative and exactly representable, labels are mutually comparable"]

    def case(self, rng, cx, i):
        pm = self.pm
        ref, net = netw(rng, cx, pm)
        nls = sorted(ref.node_layers(), key=repr)
        if not nls:
            return
        src = rng.sample(nls, min(len(nls), rng.choice([1, 1, 1, 2, 3])))
        arg = [lay_key(s) for s in src]
        arg = rng.choice([list, tuple, set, iter])(arg)
        cx.log(("sources", src))
        ix = Index(ref)
        want = distances(ix, src)
        out = bounded(cx, "steps", limit(ref, ix), lambda: pm.diagnostics.dijkstra(net, arg))
        if out is None:
            return
        d, forest = out
        cx.count("searches")
        cx.count("reached", len(want))
        if ref.directed:
            cx.count("directed")
        if len(src) > 1:
            cx.count("several_sources")
        cx.eq("distances", d, {lay_key(k): v for k, v in want.items()}, "distances from %r" % (src,))
        tight = {(a, b) for (a, b) in ix.L if a in want and want[a] + ix.L[(a, b)] == want[b] and a != b}
        got = {}
        for e in forest.edges:
            a, b, w = model.split(e, ref.aspects)
            if a == b:
                cx.true("forest:self", a in src or ix.L.get((a, a)) == 0, "self-link of %r, which is not a source" % (a,))
                continue
            got[(a, b)] = w
        cx.eq("forest:links", set(got), tight, "links of the forest")
        for k, w in got.items():
            cx.eq("forest:weights", w, ix.L[k], "weight of forest link %r" % (k,))
        cx.count("ties", len(tight) - len({b for a, b in tight}))
        cx.eq("forest:nodes", set(forest), {nl[0] for nl in want}, "nodes of the forest")
        model.compare(cx, net, ref, "original-changed", rng=rng, maxpairs=100)
        if any(a not in src for a, b in tight):
            cx.key(gen.sig(ref), src)


class Prune(core.Check):
    id = "C19"
    quick, thorough = 4000, 50000
    files = ["pymnet/diagnostics.py"]
    minima = {"searches": 2500, "several_copies": 500, "pruned_links": 200, "zero_weights": 100, "many_paths": 25, "long_paths": 5, "step_bounds": 2500}
    rule = ("case: as C18 on networks with aspects, with sources given by fixed entries and None for the collapsed "
            "dimensions; the distance of each remaining coordinate is compared with the minimum over its node-layers and "
            "the pruned forest with the links on shortest paths to the nearest node-layers. Non-trivial: several "
            "node-layers per coordinate are reached; distinct by network, sources and dimensions")
    assumptions = Dijkstra.assumptions

    def case(self, rng, cx, i):
        pm = self.pm
        ref, net = netw(rng, cx, pm, aspects=rng.choice([1, 1, 2]))
        nls = sorted(ref.node_layers(), key=repr)
        if not nls:
            return
        dims = range(ref.aspects + 1)
        coll = sorted(rng.sample(list(dims), rng.randint(1, ref.aspects)))
        if rng.random() < 0.7 and 0 in coll:
            coll = [a for a in coll if a] or [1]
        src = [tuple(None if a in coll else x for a, x in enumerate(s))
               for s in rng.sample(nls, min(len(nls), rng.choice([1, 1, 2])))]
        cx.log(("prune", src, coll))
        ix = Index(ref)
        start = [nl for nl in itertools.product(ref.nodes, *ref.layers)
                 if any(all(x is None or x == y for x, y in zip(s, nl)) for s in src) and ix.neigh(nl, "tot")]
        want = distances(ix, start)
        proj = lambda nl: tuple(x for a, x in enumerate(nl) if a not in coll)
        nd = {}
        for nl, x in want.items():
            nd[proj(nl)] = min(x, nd.get(proj(nl), x))
        out = bounded(cx, "steps", limit(ref, ix), lambda: pm.diagnostics.dijkstra_mlayer_prune(net, src, coll))
        if out is None:
            return
        d, forest = out
        cx.count("searches")
        cx.eq("distances", d, nd, "distances from %r" % (src,))
        tight = {(a, b) for (a, b) in ix.L if a in want and want[a] + ix.L[(a, b)] == want[b] and a != b}
        inn = {}
        for a, b in tight:
            inn.setdefault(b, []).append(a)
        keep, stack, seen = set(), [nl for nl in want if want[nl] == nd[proj(nl)]], set()
        while stack:
            b = stack.pop()
            if b in seen:
                continue
            seen.add(b)
            for a in inn.get(b, ()):
                keep.add((a, b))
                stack.append(a)
        got = set()
        for e in forest.edges:
            a, b, w = model.split(e, ref.aspects)
            if a != b:
                got.add((a, b))
                cx.eq("forest:weights", w, ix.L.get((a, b)), "weight of forest link %r" % ((a, b),))
        cx.eq("forest:links", got, keep, "links of the pruned forest")
        cx.count("pruned_links", len(tight) - len(keep))
        model.compare(cx, net, ref, "original-changed", rng=rng, maxpairs=100)
        if len(want) > len(nd):
            cx.count("several_copies")
            cx.key(gen.sig(ref), src, coll)
