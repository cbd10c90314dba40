"""Monitors for cc.py (clustering coefficients)."""
import itertools
from lib import core, gen, model
from lib.model import Ref, Index, lay


def one_layer(rng, n=None, wkind="pos", noEdge=0, mixed=True):
    """Undirected monoplex reference network without self-links, positive weights."""
    r = Ref(0, False, noEdge, True)
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 12]) if n is None else n
    ns = gen.nodes(rng, n, mixed=mixed and rng.random() < 0.3, sortable=False)
    for i in ns:
        r.add_node(i)
    d = rng.choice([0.0, 0.2, 0.4, 0.6, 0.8, 1.0])
    for a, b in itertools.combinations(ns, 2):
        if rng.random() < d:
            r.set((a,), (b,), gen.nz(rng, wkind, noEdge, zero=False))
    return r


class Mono(core.Check):
    id = "C20"
    quick, thorough = 4000, 60000
    files = ["pymnet/cc.py"]
    minima = {"nodes": 10000, "undefined": 2000, "triangles": 5000, "globals": 1500, "empty": 100, "intra": 300}
    rule = ("case: random undirected monoplex network (0-12 nodes, positive weights, also as intra-layer network of a "
            "multiplex network); unweighted, Zhang, Onnela and Barrat local coefficients of every node and the global "
            "Zhang coefficient and average local coefficient are compared with the documented sums. Non-trivial: at least "
            "one triangle; distinct by network")
    assumptions = ["weights are positive, no self-links"]

    def case(self, rng, cx, i):
        pm, cc = self.pm, self.pm.cc
        ref = one_layer(rng, wkind=rng.choice(["unit", "int", "float", "pos"]), noEdge=rng.choice([0, 0, 0, -1]))
        if rng.random() < 0.2:
            cx.count("intra")
            m = pm.MultiplexNetwork("categorical", noEdge=ref.noEdge)
            m.add_layer("x")
            m.add_layer("y")
            for x in ref.nodes:
                m.add_node(x)
            for (a, b), w in ref.w.items():
                m[a[0], b[0], "x"] = w
            net = m.A["x"]
        else:
            net = model.build(pm, ref, gen.shuffled(rng, ref.w))
        cx.log(gen.describe(ref))
        cx.sample(gen.describe(ref))
        W = {}
        for (a, b), w in ref.w.items():
            W.setdefault(a[0], {})[b[0]] = w
        mx = max(ref.w.values()) if ref.w else None
        und = object()
        gn = gd = 0.0
        tri = 0
        loc = []
        if not ref.w:
            cx.count("empty")
        for u in ref.nodes:
            cx.count("nodes")
            N = W.get(u, {})
            k = len(N)
            pairs = list(itertools.permutations(N, 2))
            got = {f: getattr(cc, f)(net, u, undefReturn=und) for f in ("lcc", "cc_zhang", "cc_onnela", "cc_barrat")}
            dflt = {f: getattr(cc, f)(net, u) for f in got}
            if k < 2:
                cx.count("undefined")
                for f in got:
                    cx.true("undefined:" + f, got[f] is und, "%s of a node with degree %d is %r instead of the given object" % (f, k, got[f]))
                    cx.eq("undefined-default:" + f, dflt[f], 0.0)
                continue
            T = [(j, h) for j, h in pairs if h in W.get(j, {})]
            tri += len(T)
            cx.count("triangles", len(T))
            z = sum(N[j] * N[h] * W[j][h] for j, h in T)
            p = sum(N[j] * N[h] for j, h in pairs)
            gn, gd = gn + z, gd + p
            loc.append(len(T) / (k * (k - 1.0)))
            want = {"lcc": loc[-1], "cc_zhang": z / (mx * p),
                    "cc_onnela": sum((N[j] * N[h] * W[j][h]) ** (1 / 3.) for j, h in T) / (mx * k * (k - 1)),
                    "cc_barrat": sum((N[j] + N[h]) / 2. for j, h in T) / (sum(N.values()) * (k - 1))}
            for f in want:
                cx.close("local:" + f, got[f], want[f], "%s of node %r" % (f, u))
                cx.close("local:" + f, dflt[f], want[f], "%s of node %r" % (f, u))
        g = cc.gcc_zhang(net)
        cx.count("globals")
        if gd:
            cx.close("global:zhang", g, gn / (mx * gd), "gcc_zhang")
        else:
            cx.true("global:zhang-undefined", g is None, "gcc_zhang without connected triples is %r" % (g,))
        a = cc.gcc_from_lcc(net, cc.lcc)
        if loc:
            cx.close("global:average", a, sum(loc) / len(loc), "gcc_from_lcc")
        else:
            cx.true("global:average-undefined", a is None, "gcc_from_lcc of undefined coefficients is %r" % (a,))
        model.compare(cx, net, ref, "input-changed", rng=rng, maxpairs=100)
        if tri:
            cx.key(gen.sig(ref))


def mplex1(rng, full, wkind="unit", nl=None, n=None, directed=False, noEdge=0, density=None, mixed=True):
    """One-aspect categorical unit-coupled multiplex reference network."""
    nl = nl or rng.choice([1, 2, 2, 3, 3, 4])
    ref = gen.multiplex(rng, aspects=1, directed=directed, full=full, noEdge=noEdge, wkind=wkind, nl=[nl],
                        kinds=["categorical"], unit_coupling=True, density=density,
                        n=rng.choice([1, 2, 3, 4, 5, 6, 7]) if n is None else n, sortable=False, mixed=mixed)
    return ref


class Walks(core.Check):
    id = "C21"
    quick, thorough = 1200, 20000
    files = ["pymnet/cc.py"]
    minima = {"node_layers": 8000, "nonfull": 300, "full": 300, "nodes": 2500, "coefficients": 10000, "cycles": 20000, "supra": 25, "other_missing_value": 300}
    rule = ("case: random unweighted one-aspect categorically coupled multiplex network (1-4 layers, fully "
            "interconnected or not); the ten elementary cycle counts of every node-layer, node, layer and of the network "
            "are compared with closed walks counted over the links (steps: intra-layer, coupling, or between any two "
            "different nodes of a layer), with every implementation (with and without aggregated network), and local, "
            "averaged, supernode and global alternating walk coefficients with the ratios of those counts. Non-trivial: "
            "a closed alternating walk that changes layers; distinct by network")
    assumptions = ["links are unweighted, coupling is categorical"]

    WORDS = ["aaa", "aacac", "acaac", "acaca", "acacac", "afa", "afcac", "acfac", "acfca", "acfcac"]

    def case(self, rng, cx, i):
        pm, cc = self.pm, self.pm.cc
        mixed = rng.random() < 0.5
        ref = mplex1(rng, rng.random() < 0.5, mixed=mixed, noEdge=rng.choice([0, 0, 0, -1, None, "no", float("inf")]))
        if ref.noEdge != 0:
            cx.count("other_missing_value")
            for k in ref.w:
                ref.w[k] = 1
        net = model.build(pm, ref, gen.shuffled(rng, ref.w), couplings=rng.choice(["categorical", [("categorical", 1)], [("categorical", 1.0)]]))
        cx.log(gen.describe(ref))
        cx.sample(gen.describe(ref))
        cx.count("full" if ref.full else "nonfull")
        nls = sorted(ref.node_layers(), key=repr)
        step = {"a": {x: [] for x in nls}, "c": {x: [] for x in nls}, "f": {x: [] for x in nls}}
        for (a, b) in ref.w:
            step["a"][a].append(b)
        for a in nls:
            for b in nls:
                if a != b and a[0] == b[0]:
                    step["c"][a].append(b)
                if a[0] != b[0] and a[1] == b[1]:
                    step["f"][a].append(b)

        def closed(start, word):
            cur = {start: 1}
            for s in word:
                nxt = {}
                for x, k in cur.items():
                    for y in step[s][x]:
                        nxt[y] = nxt.get(y, 0) + k
                cur = nxt
            return cur.get(start, 0)

        cyc = {}
        for x in nls:
            # the walks of the definition start and end at the node-layer, the coupling step closing 'ac' walks included
            cyc[x] = tuple(closed(x, w) for w in self.WORDS)
            cx.count("cycles", sum(cyc[x]))
        Z = (0,) * 10
        add = lambda vs: tuple(sum(t) for t in zip(Z, *vs))
        anet = pm.aggregate(net, 1)
        nodes, layers = sorted(ref.nodes, key=repr), sorted(ref.layers[0], key=repr)
        for n in nodes:
            for l in layers:
                x = (n, l)
                want = cyc.get(x, Z)
                cx.count("node_layers")
                cx.eq("cycles:node-layer", tuple(cc.elementary_cycles(net, n, l)), want, "elementary cycles of %r" % (x,))
                cx.eq("cycles:bf", tuple(cc.cc_cycle_vector_bf(net, n, l)), want, "cycle vector (bf) of %r" % (x,))
                if ref.full:
                    cx.eq("cycles:anet", tuple(cc.cc_cycle_vector_anet(net, n, l, anet)), want, "cycle vector (anet) of %r" % (x,))
                    cx.eq("cycles:node-layer-anet", tuple(cc.elementary_cycles(net, n, l, anet=anet)), want, "elementary cycles of %r" % (x,))
        if ref.full and ref.noEdge == 0 and len(nodes) > 1 and len(nls) <= 12 and not mixed and rng.random() < 0.5:
            x = rng.choice(nls)
            cx.count("supra")
            cx.close("cycles:supra", [float(v) for v in cc.cc_cycle_vector_adj(net, x[0], x[1])], list(cyc[x]), "cycle vector from the supra-adjacency matrix of %r" % (x,))
        tot = add(cyc.values())
        bynode = {n: add([v for x, v in cyc.items() if x[0] == n]) for n in nodes}
        bylayer = {l: add([v for x, v in cyc.items() if x[1] == l]) for l in layers}
        cx.eq("cycles:total", tuple(cc.elementary_cycles(net)), tot, "elementary cycles of the network")
        cx.eq("cycles:total-anet", tuple(cc.elementary_cycles(net, anet=anet)), tot, "elementary cycles of the network")
        for n in nodes:
            cx.count("nodes")
            for an in (None, anet):
                cx.eq("cycles:node", tuple(cc.elementary_cycles(net, n, anet=an)), bynode[n], "elementary cycles of node %r (aggregated network %s)" % (n, an is not None))
        for l in layers:
            for an in (None, anet):
                cx.eq("cycles:layer", tuple(cc.elementary_cycles(net, layer=l, anet=an)), bylayer[l], "elementary cycles of layer %r" % (l,))
        # coefficients
        w = [rng.choice([0, 0.1, 0.25, 1 / 3., 0.5, 0.7, 1]) for _ in range(3)]

        def parts(v):
            return [(v[0], v[5]), (v[1] + v[2] + v[3], v[6] + v[7] + v[8]), (v[4], v[9])]

        def vec(v):
            return tuple(t / float(d) if d else 0 for t, d in parts(v))

        def val(v, w1=0.5, w2=0.5, w3=None):
            if w3 is not None:
                return sum(a * b for a, b in zip((w1, w2, w3), vec(v)))
            co = (w1 ** 3, w1 * w2 ** 2, w2 ** 3)
            t = sum(c * p[0] for c, p in zip(co, parts(v)))
            d = sum(c * p[1] for c, p in zip(co, parts(v)))
            return t / float(d) if d else 0

        def three(name, f, v):
            cx.count("coefficients")
            cx.close("coef:" + name, f(), val(v), name)
            cx.close("coef:" + name + "-cost", f(w1=w[0], w2=w[1]), val(v, w[0], w[1]), name + " with costs")
            cx.close("coef:" + name + "-weights", f(w1=w[0], w2=w[1], w3=w[2]), val(v, *w), name + " with weights")
            cx.close("coef:" + name + "-vector", tuple(f(returnCVector=True)), vec(v), name + " vector")

        three("gcc_aw", lambda **k: cc.gcc_aw(net, **k), tot)
        for n in nodes:
            an = rng.choice([None, anet])
            three("sncc_aw", lambda **k: cc.sncc_aw(net, n, anet=an, **k), bynode[n])
            cx.close("coef:layercost", cc.sncc_aw_layercost(net, n, a=w[0], b=w[1]), val(bynode[n], w[0], w[1]), "sncc_aw_layercost")
            sl = cc.sncc_aw_seplayers(net, n, w1=w[0], w2=w[1], w3=w[2], undefined="undef")
            if any(ww > 0 and not p[1] for ww, p in zip(w, parts(bynode[n]))):
                cx.eq("coef:seplayers-undefined", sl, "undef", "sncc_aw_seplayers")
            else:
                cx.close("coef:seplayers", sl, val(bynode[n], *w), "sncc_aw_seplayers")
        for x in nls:
            three("lcc_aw", lambda **k: cc.lcc_aw(net, x[0], x[1], **k), cyc[x])
        if nls:
            av = lambda f: sum(f(v) for v in cyc.values()) / float(len(cyc))
            an = rng.choice([None, anet])
            cx.close("coef:avg", cc.avg_lcc_aw(net, anet=an), av(val), "avg_lcc_aw")
            cx.close("coef:avg-cost", cc.avg_lcc_aw(net, w1=w[0], w2=w[1]), av(lambda v: val(v, w[0], w[1])), "avg_lcc_aw")
            cx.close("coef:avg-weights", cc.avg_lcc_aw(net, w1=w[0], w2=w[1], w3=w[2]), av(lambda v: val(v, *w)), "avg_lcc_aw")
            cx.close("coef:avg-vector", tuple(cc.avg_lcc_aw(net, returnCVector=True, anet=an)),
                     tuple(av(lambda v, i=i: vec(v)[i]) for i in range(3)), "avg_lcc_aw vector")
        cols = cc.cc_aw_vector(net)
        for p in range(3):
            for q in range(2):
                cx.eq("coef:aw-vector", sorted(cols[2 * p + q]), sorted(parts(cyc.get((n, l), Z))[p][q] for n in nodes for l in layers), "cc_aw_vector")
        m2 = [(tot[0], tot[5]), (2 * tot[1] + 2 * tot[2] + tot[3], 2 * tot[6] + 2 * tot[7] + tot[8]), (2 * tot[4], 2 * tot[9])]
        cx.close("coef:moreno2", cc.gcc_moreno2_seplayers(net, *w), sum(a * (t / float(d) if d else 0) for a, (t, d) in zip(w, m2)), "gcc_moreno2_seplayers")
        model.compare(cx, net, ref, "input-changed", rng=rng, maxpairs=100)
        if ref.full and ref.noEdge == 0 and len(nodes) > 1 and not mixed and len(layers) > 2:
            cx.close("coef:gcc-supra", cc.gcc_aw_seplayers_adj(net, *w), val(tot, *w), "gcc_aw_seplayers_adj")
            cx.close("coef:gcc-supra-vector", cc.gcc_aw_seplayers_adj(net, returnCVector=True), vec(tot), "gcc_aw_seplayers_adj vector")
            order = [(n, l) for n, l in net.get_supra_adjacency_matrix()[1]]
            for p, q, col in [(k // 2, k % 2, c) for k, c in enumerate(cc.gcc_aw_vector_adj(net))]:
                cx.close("coef:aw-vector-adj", tuple(map(float, col)), tuple(float(parts(cyc.get(x, Z))[p][q]) for x in order), "gcc_aw_vector_adj")
        if ref.full and ref.noEdge == 0 and len(nodes) > 1 and not mixed and m2[0][1] and m2[1][1]:
            cx.count("moreno2")
            cx.close("coef:moreno2-vector", tuple(map(float, cc.gcc_vector_moreno2(net))), tuple(t / float(d) if d else 0.0 for t, d in m2), "gcc_vector_moreno2")
            cx.close("coef:moreno2-supra", float(cc.gcc_moreno2(net, *w)), sum(a * (t / float(d) if d else 0) for a, (t, d) in zip(w, m2)), "gcc_moreno2")
        if any(tot[1:5]):
            cx.key(gen.sig(ref))


class Multi(core.Check):
    id = "C22"
    quick, thorough = 1500, 20000
    files = ["pymnet/cc.py"]
    minima = {"barrett": 3000, "brodka_directed": 2000, "brodka": 6000, "battiston": 2000, "criado": 3000, "sequence": 4000, "contraction": 200,
              "super": 800, "nonfull": 400}
    rule = ("case: random one-aspect multiplex network (weighted or not, fully interconnected or not where defined); the "
            "coefficients of Barrett, Brodka (all thresholds, with and without aggregated network), Battiston (both, also "
            "directed) and Criado of every node, triangle and tuple counts per layer, supernetwork and contraction "
            "coefficients are compared with the defining sums over the link table. Non-trivial: a node with two "
            "neighbours in one layer; distinct by network")
    assumptions = ["weights are positive; Barrett, Brodka, Criado: undirected; contraction: fully interconnected, at most 5 nodes"]

    def case(self, rng, cx, i):
        pm, cc = self.pm, self.pm.cc
        full = rng.random() < 0.6
        wk = rng.choice(["unit", "unit", "int", "float", "pos"])
        ref = mplex1(rng, full, wkind=wk, nl=rng.choice([1, 2, 3, 3, 4]), density=rng.choice([0.2, 0.5, 0.8, 1.0]))
        net = model.build(pm, ref, gen.shuffled(rng, ref.w))
        cx.log(gen.describe(ref))
        cx.sample(gen.describe(ref))
        if not full:
            cx.count("nonfull")
        anet = pm.aggregate(net, 1)
        nodes, layers = sorted(ref.nodes, key=repr), sorted(ref.layers[0], key=repr)
        b = len(layers)
        A = {l: {} for l in layers}
        for (x, y), w in ref.w.items():
            A[x[1]][x[0], y[0]] = w
        S = {}
        for l in layers:
            for k, w in A[l].items():
                S[k] = S.get(k, 0) + w
        C = {}
        for l in layers:
            for k in A[l]:
                C[k] = C.get(k, 0) + 1
        where = {l: {nl[0] for nl in ref.node_layers() if nl[1] == l} for l in layers}
        st = [0, 0]
        for u in nodes:
            nb = [v for v in nodes if (u, v) in S]
            # Barrett
            num = sum(S[u, j] * S.get((u, h), 0) * S.get((j, h), 0) for j in nb for h in nodes)
            den = sum(S[u, j] * sum(max(A[l].get((u, h), 0), A[l].get((j, h), 0)) for l in layers) for j in nb for h in nodes)
            want = num / float(den) if den else 0.0
            cx.count("barrett")
            cx.close("barrett", cc.cc_barrett(net, u, anet), want, "cc_barrett of %r" % (u,))
            cx.close("barrett:optimized", cc.cc_barrett_optimized(net, u, anet), want, "cc_barrett_optimized of %r" % (u,))
            if rng.random() < 0.3:
                cx.close("barrett:explicit", cc.cc_barrett_explicit(net, u), want, "cc_barrett_explicit of %r" % (u,))
            if not nb:
                cx.eq("barrett:undefined", cc.cc_barrett(net, u, anet, undefReturn="u"), "u")
            # Brodka
            for t in list(range(1, b + 1)) + ["all"]:
                tt = b if t == "all" else t
                N = [v for v in nb if C[u, v] >= tt]
                s = sum(2 * A[l].get((h, v), 0) for l in layers for v in N for h in N)
                want = s / (2. * len(N) * b) if N else 0.0
                cx.count("brodka")
                cx.close("brodka", cc.lcc_brodka(net, u, threshold=t), want, "lcc_brodka of %r, threshold %r" % (u, t))
                if wk == "unit":
                    cx.close("brodka:anet", cc.lcc_brodka(net, u, anet=anet, threshold=t), want, "lcc_brodka of %r, threshold %r, aggregated" % (u, t))
            # Criado
            s = d = 0
            for l in layers:
                g = [v for v in nb if v in where[l]]
                s += sum(1 for v in g for h in g if (v, h) in A[l])
                d += len(g) * (len(g) - 1)
            cx.count("criado")
            for an in (None, anet):
                cx.close("criado", cc.lcc_criado(net, u, undefReturn=-7.0, anet=an), s / float(d) if d else -7.0, "lcc_criado of %r" % (u,))
            # per layer counts
            tr, tu = cc.cc_sequence(net, u)
            order = list(net.A)
            cx.eq("sequence:layers", (len(tr), len(tu), len(order)), (b, b, b), "cc_sequence lengths")
            wt, wu = [], []
            for l in order:
                N = [v for v in nodes if (u, v) in A[l]]
                k = len(N)
                wu.append(k * (k - 1) / 2)
                wt.append(sum(1 for v, h in itertools.combinations(N, 2) if (v, h) in A[l]))
                if k > 1:
                    cx.key(gen.sig(ref))
            cx.count("sequence")
            cx.eq("sequence:triangles", list(tr), wt, "triangles of %r" % (u,))
            cx.eq("sequence:tuples", list(tu), wu, "tuples of %r" % (u,))
            st[0] += sum(wt)
            st[1] += sum(wu)
            if sum(wu):
                cx.close("sequence:wavg", cc.cc_layers_wavg(net, u), sum(wt) / float(sum(wu)), "cc_layers_wavg")
            if all(wu) and wu:
                cx.close("sequence:avg", cc.cc_layers_avg(net, u), sum(x / float(y) for x, y in zip(wt, wu)) / b, "cc_layers_avg")
        cx.count("super")
        cx.close("super:no-couplings", cc.gcc_super_graph_no_couplings(net), st[0] / float(st[1]) if st[1] else None, "gcc_super_graph_no_couplings")
        ix = Index(ref)
        sn = sd = 0
        for x in ref.node_layers():
            N = list(ix.out.get(x, ()))
            sd += len(N) * (len(N) - 1) / 2
            sn += sum(1 for p, q in itertools.combinations(N, 2) if (p, q) in ix.L)
        cx.close("super", cc.gcc_super_graph(net), sn / float(sd) if sd else None, "gcc_super_graph")
        if i % 2 == 0:
            self.battiston(rng, cx)
        if i % 4 == 0:
            self.contraction(rng, cx)
        if i % 4 == 1:
            self.brodka_directed(rng, cx)
        model.compare(cx, net, ref, "input-changed", rng=rng, maxpairs=100)

    def battiston(self, rng, cx):
        pm, cc = self.pm, self.pm.cc
        directed = rng.random() < 0.5
        ref = mplex1(rng, True, wkind=rng.choice(["unit", "int", "signed"]), nl=rng.choice([2, 3, 3, 4]), n=rng.choice([2, 3, 4, 5]),
                     directed=directed, noEdge=rng.choice([0, 0, -1]), density=rng.choice([0.3, 0.6, 1.0]))
        net = model.build(pm, ref, gen.shuffled(rng, ref.w))
        cx.log("battiston", gen.describe(ref))
        nodes, layers = sorted(ref.nodes, key=repr), sorted(ref.layers[0], key=repr)
        b = len(layers)
        a = {(x[0], y[0], x[1]) for (x, y) in ref.w}
        und = object()
        for u in nodes:
            V = [v for v in nodes if v != u]
            out = {l: [v for v in V if (u, v, l) in a] for l in layers}
            inn = {l: [v for v in V if (v, u, l) in a] for l in layers}
            d1 = sum(len(out[l]) * len(inn[l]) for l in layers)
            s1 = sum(1 for l in layers for m in layers if m != l for v in out[l] for h in inn[l] if (v, h, m) in a)
            cx.count("battiston")
            g = cc.lcc_battiston1(net, u, undefReturn=und)
            if d1:
                cx.close("battiston1", g, s1 / float(d1) / (b - 1), "lcc_battiston1 of %r" % (u,))
            else:
                cx.true("battiston1:undefined", g is und, "lcc_battiston1 undefined: %r" % (g,))
            d2 = sum(len(out[l]) * len(inn[m]) for l in layers for m in layers if l != m)
            s2 = sum(1 for l in layers for m in layers if m != l for k in layers if k not in (l, m)
                     for v in out[l] for h in inn[m] if (v, h, k) in a)
            g = cc.lcc_battiston2(net, u, undefReturn=und)
            if b >= 3 and d2:
                cx.close("battiston2", g, s2 / float(d2) / (b - 2), "lcc_battiston2 of %r" % (u,))
            else:
                cx.true("battiston2:undefined", g is und, "lcc_battiston2 undefined: %r" % (g,))

    def brodka_directed(self, rng, cx):
        """Links in both directions with different weights (so that 'and' and 'or' of directions agree)."""
        pm, cc = self.pm, self.pm.cc
        und = mplex1(rng, rng.random() < 0.6, wkind="unit", nl=rng.choice([1, 2, 3]), n=rng.choice([3, 4, 5]), density=rng.choice([0.4, 0.8]))
        ref = Ref(1, True, 0, und.full, und.couplings)
        ref.nodes, ref.layers, ref.nls = set(und.nodes), [set(l) for l in und.layers], set(und.nls)
        for (x, y) in sorted(und.w, key=repr):
            ref.set(x, y, rng.choice([1, 2, 0.5, 3]))
        net = model.build(pm, ref, gen.shuffled(rng, ref.w))
        cx.log("brodka-directed", gen.describe(ref))
        layers = sorted(ref.layers[0], key=repr)
        b = len(layers)
        anet = None
        if all(w == 1 for w in ref.w.values()):
            anet = pm.aggregate(net, 1)
        for u in sorted(ref.nodes, key=repr):
            for t in list(range(1, b + 1)) + ["all"]:
                tt = b if t == "all" else t
                N = [v for v in ref.nodes if sum(1 for l in layers if ((u, l), (v, l)) in ref.w) >= tt]
                s = sum(ref.w.get(((h, l), (v, l)), 0) + ref.w.get(((v, l), (h, l)), 0) for l in layers for v in N for h in N)
                want = s / (2. * len(N) * b) if N else 0.0
                cx.count("brodka_directed")
                cx.close("brodka:directed", cc.lcc_brodka(net, u, threshold=t), want, "lcc_brodka of %r, threshold %r, directed" % (u, t))
                if anet is not None:
                    cx.close("brodka:directed-anet", cc.lcc_brodka(net, u, anet=anet, threshold=t), want, "lcc_brodka of %r, threshold %r, directed, aggregated" % (u, t))

    def contraction(self, rng, cx):
        import numpy as np
        pm, cc = self.pm, self.pm.cc
        ref = mplex1(rng, True, wkind=rng.choice(["unit", "int", "float"]), nl=rng.choice([1, 2, 3]), n=rng.choice([2, 3, 4]),
                     density=rng.choice([0.3, 0.6, 1.0]))
        net = model.build(pm, ref, gen.shuffled(rng, ref.w))
        cx.log("contraction", gen.describe(ref))
        nodes, layers = sorted(ref.nodes, key=repr), sorted(ref.layers[0], key=repr)
        n, b = len(nodes), len(layers)
        M = np.zeros((n, b, n, b))
        for x, p in enumerate(nodes):
            for l, q in enumerate(layers):
                for y, r in enumerate(nodes):
                    for m, s in enumerate(layers):
                        M[x, l, y, m] = ref.link((p, q), (r, s))
        K = M.reshape(n * b, n * b)
        num = np.trace(K @ K @ K)
        two = (K @ K).sum()
        back = np.trace(K @ K)
        f = lambda a, c: float(a) / float(c) if c else None
        cx.count("contraction")
        cx.close("contraction:m", cc.gcc_contraction_m(net), f(num, two - back), "gcc_contraction_m")
        cx.close("contraction:m_ct", cc.gcc_contraction_m_ct(net), f(num, two - back), "gcc_contraction_m_ct")
        cx.close("contraction:m_full", cc.gcc_contraction_m_full(net), f(num, two - back), "gcc_contraction_m_full")
        O = sum(M[:, l, :, l] for l in range(b))
        num, two, back = np.trace(O @ O @ O), (O @ O).sum(), np.trace(O @ O)
        cx.close("contraction:o", cc.gcc_contraction_o(net), f(num, b * two - back), "gcc_contraction_o")
        cx.close("contraction:o2", cc.gcc_contraction_o2(net), f(num, b * (two - back)), "gcc_contraction_o2")
        cx.close("contraction:o_full", cc.gcc_contraction_o_full(net), f(num, b * (two - back)), "gcc_contraction_o_full")
