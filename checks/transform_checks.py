"""Monitors for transforms.py: every transformed network is compared with the network the reference
model produces for the same transformation, and the original must be left as it was."""
import collections, itertools, math
from lib import core, gen, model
from lib.model import Ref, Index, interleave, lay


def build(pm, rng, cx, ref):
    cx.log(gen.describe(ref))
    cx.sample(gen.describe(ref))
    return model.build(pm, ref, gen.shuffled(rng, ref.w))


def explicit(ref):
    """Reference with the coupling links as ordinary links."""
    r = Ref(ref.aspects, ref.directed, ref.noEdge, ref.full)
    r.nodes, r.layers, r.nls = set(ref.nodes), [set(l) for l in ref.layers], set(ref.nls)
    r.w = ref.links()
    return r


def sub_ref(ref, ns, ls, links=True, explicit_couplings=False):
    """Induced subnetwork."""
    r = Ref(ref.aspects, ref.directed, ref.noEdge, ref.full, None if explicit_couplings else ref.couplings)
    r.layers = [l & s for l, s in zip(ref.layers, ls)]
    if ref.full:
        r.nodes = ref.nodes & ns
        keep = lambda nl: nl[0] in ns and all(x in s for x, s in zip(nl[1:], ls))
    else:
        r.nls = {nl for nl in ref.nls if nl[0] in ns and all(x in s for x, s in zip(nl[1:], ls))}
        r.nodes = {nl[0] for nl in r.nls}
        keep = lambda nl: nl in r.nls
    if links:
        src = ref.links() if explicit_couplings else ref.w
        r.w = {(a, b): w for (a, b), w in src.items() if keep(a) and keep(b)}
    return r


class Subnet(core.Check):
    id = "C10"
    quick, thorough = 7000, 50000
    files = ["pymnet/transforms.py", "pymnet/net.py"]
    minima = {"subnets": 2500, "mplex": 300, "dense_path": 200, "to_general": 100, "nolinks": 200, "rejected": 50}
    rule = ("case: random general or multiplex network and a random selection of nodes and layers (None, lists, sets, "
            "tuples, unknown nodes, with and without newNet / nolinks): the result is compared with the induced "
            "subnetwork, the original must not change, and changing the copy must not change the original. "
            "Non-trivial: the selection is proper and keeps a link; distinct by network and selection")

    def case(self, rng, cx, i):
        pm = self.pm
        mp = rng.random() < 0.45
        ref = (gen.multiplex(rng, noEdge=gen.no_edge(rng), sortable=False) if mp else
               gen.general(rng, noEdge=gen.no_edge(rng), sortable=False, density=rng.choice([None, None, 0.95])))
        net = build(pm, rng, cx, ref)
        pick = lambda s, p: [x for x in sorted(s, key=repr) if rng.random() < p]
        p = rng.choice([0.2, 0.5, 0.8, 1.0])
        ns = pick(ref.nodes, p)
        if rng.random() < 0.3:
            ns = ns + ["unknown node", -12345]
        ls = [pick(l, rng.choice([0.5, 0.8, 1.0])) for l in ref.layers]
        if not mp and rng.random() < 0.2:
            ls = [l + ["unknown layer"] for l in ls]
        nset, lset = set(ns), [set(l) for l in ls]
        shape = lambda x: rng.choice([list, tuple, set, gen_of])(gen.shuffled(rng, x))
        an = shape(ns)
        al = [shape(l) for l in ls]
        if rng.random() < 0.15:
            an, nset = None, set(ref.nodes)
        for a in range(ref.aspects):
            if rng.random() < 0.15:
                al[a], lset[a] = None, set(ref.layers[a])
        kw, expl, links = {}, False, True
        r = rng.random()
        want_full = ref.full
        if r < 0.12:
            kw["nolinks"] = True
            links = False
            cx.count("nolinks")
        elif r < 0.2:
            kw["nolinks"] = False
        if rng.random() < 0.35:
            if mp and rng.random() < 0.5:
                kw["newNet"] = pm.MultiplexNetwork(couplings=model.real_couplings(pm, ref), directed=ref.directed,
                                                   noEdge=ref.noEdge, fullyInterconnected=ref.full)
            else:
                expl = mp
                if ref.full and ref.aspects and rng.random() < 0.4:
                    want_full = False
                kw["newNet"] = pm.MultilayerNetwork(aspects=ref.aspects, directed=ref.directed, noEdge=ref.noEdge,
                                                    fullyInterconnected=want_full)
                if mp:
                    cx.count("to_general")
        elif rng.random() < 0.1:
            kw["newNet"] = None
        cx.log(("subnet", sorted(map(repr, nset)), [sorted(map(repr, l)) for l in lset], sorted(kw)))
        if not links and expl:
            expl = True
        want = sub_ref(ref, nset, lset, links=links, explicit_couplings=expl)
        if want_full != ref.full:
            want.nls = want.node_layers()
            want.full = False
            # nodes and layers come from the node-layers and the selection
            want.nodes = set(want.nodes)
        got = pm.subnet(net, an, *al, **kw)
        if kw.get("newNet") is not None:
            cx.true("newNet", got is kw["newNet"], "the given newNet is returned")
        cx.true("type", isinstance(got, pm.MultiplexNetwork) == (mp and not expl), "type of the subnetwork is %s" % type(got))
        cx.count("subnets")
        if mp:
            cx.count("mplex")
        nl = len(want.node_layers())
        if not mp and any(len(Index(ref).neigh(x, "tot")) >= nl > 0 for x in want.node_layers()):
            cx.count("dense_path")
        model.compare(cx, got, want, "subnet", rng=rng, maxpairs=400)
        model.compare(cx, net, ref, "original-changed", rng=rng, maxpairs=100)
        if links and want.w and len(want.w) < len(ref.w):
            cx.key(gen.sig(ref), sorted(map(repr, nset)), [sorted(map(repr, l)) for l in lset], sorted(kw))
        # independence of the copy
        if want.w and rng.random() < 0.5:
            (a, b) = rng.choice(sorted(want.w, key=repr))
            got[interleave(a, b)] = 123.5
            cx.eq("copy-aliases-original", net[interleave(a, b)], ref.w.get((a, b), ref.link(a, b)), "original link after changing the copy")
        got.add_node("another new node")
        cx.true("copy-aliases-original", "another new node" not in set(net), "node added to the copy appeared in the original")
        # conversions that must be refused
        if rng.random() < 0.1:
            if not mp and ref.aspects:
                new = pm.MultiplexNetwork(couplings=["none"] * ref.aspects, directed=ref.directed, fullyInterconnected=ref.full)
                cx.raises("general-to-multiplex", TypeError, pm.subnet, net, nset & ref.nodes, *[l & r for l, r in zip(lset, ref.layers)], newNet=new)
                cx.count("rejected")
            if not ref.full:
                new = pm.MultilayerNetwork(aspects=ref.aspects, directed=ref.directed)
                cx.raises("nonfull-to-full", TypeError, pm.subnet, net, nset & ref.nodes, *[l & r for l, r in zip(lset, ref.layers)], newNet=new)
                cx.count("rejected")


def gen_of(x):
    return (y for y in list(x))


class Aggregate(core.Check):
    id = "C11"
    quick, thorough = 6000, 40000
    files = ["pymnet/transforms.py"]
    minima = {"aggregations": 2000, "several_aspects": 300, "summed_links": 500, "self_edges": 100, "small_weights_other_missing": 100}
    rule = ("case: random general or multiplex network with 1-3 aspects, aggregated over one aspect or a tuple of "
            "aspects, with and without self-edges and newNet; nodes, layers, node-layers and every link weight are "
            "compared with the sum of the links projecting onto it; aggregating step by step must give the same. "
            "Non-trivial: at least two links are summed into one; distinct by network and aspects")

    def case(self, rng, cx, i):
        pm = self.pm
        mp = rng.random() < 0.5
        asp = rng.choice([1, 1, 2, 2, 3])
        noEdge = 0 if rng.random() < 0.7 else rng.choice([-13, gen.no_edge(rng)])
        wk = rng.choice(["unit", "int", "signed", "float"])
        few = not mp and rng.random() < 0.2  # sums that pass through the value of missing links
        if few:
            noEdge = rng.choice([2, 3, -2, 1.5])
        ref = (gen.multiplex(rng, aspects=asp, sortable=False, noEdge=noEdge, wkind=wk) if mp
               else gen.general(rng, aspects=asp, sortable=False, noEdge=noEdge, wkind=wk))
        if few:
            for a, b in list(ref.w):
                w = rng.choice([x for x in (1, 2, -1, 0.5) if x != noEdge])
                ref.set(a, b, w)
            cx.count("small_weights_other_missing")
        net = build(pm, rng, cx, ref)
        k = rng.randint(1, asp)
        over = rng.sample(range(1, asp + 1), k)
        arg = over[0] if k == 1 and rng.random() < 0.6 else rng.choice([tuple, list])(over)
        se = rng.random() < 0.3
        cx.log(("aggregate", arg, se))
        kw = {}
        if se or rng.random() < 0.2:
            kw["selfEdges"] = se
        if rng.random() < 0.2:
            kw["newNet"] = pm.MultilayerNetwork(aspects=asp - k, noEdge=noEdge, directed=ref.directed,
                                                fullyInterconnected=ref.full)
        got = pm.aggregate(net, arg, **kw)
        if "newNet" in kw:
            cx.true("newNet", got is kw["newNet"], "the given newNet is returned")
        cx.true("type", type(got) is pm.MultilayerNetwork, "type of the aggregate")
        want, summed = aggregate_ref(ref, over, se)
        cx.count("aggregations")
        cx.count("summed_links", summed)
        if k > 1:
            cx.count("several_aspects")
        if se:
            cx.count("self_edges")
        close_compare(cx, got, want, "aggregate")
        model.compare(cx, net, ref, "original-changed", rng=rng, maxpairs=100)
        if k > 1 and not se and ref.full and not few:
            step = net
            for a in sorted(over, reverse=True):
                step = pm.aggregate(step, a, selfEdges=True)
            r2 = want.copy()
            got2 = {k2: w for k2, w in model.edge_set(step).items() if not isself(k2)}
            cx.close("stepwise", got2, {k2: w for k2, w in model.edge_set(got).items()}, "aggregating one aspect at a time")
        if summed:
            cx.key(gen.sig(ref), repr(arg), se)


def isself(k):
    return len(set(k)) == 1


def aggregate_ref(ref, over, selfedges):
    keep = [0] + [a for a in range(1, ref.aspects + 1) if a not in over]
    r = Ref(len(keep) - 1, ref.directed, ref.noEdge, ref.full or len(keep) == 1)
    r.nodes = set(ref.nodes)
    r.layers = [set(ref.layers[a - 1]) for a in keep[1:]]
    proj = lambda nl: tuple(nl[a] for a in keep)
    if not r.full:
        r.nls = {proj(nl) for nl in ref.nls}
    acc = collections.OrderedDict()
    for k, w in Index(ref).edges().items():
        t = tuple(k) if ref.directed else (tuple(k) if len(k) == 2 else tuple(k) * 2)
        a, b = proj(t[0]), proj(t[1])
        if a == b and not selfedges:
            continue
        kk = (a, b) if ref.directed else frozenset((a, b))
        acc.setdefault(kk, []).append(w)
    summed = 0
    for kk, ws in acc.items():
        t = tuple(kk) if len(kk) == 2 else tuple(kk) * 2
        summed += len(ws) > 1
        s = sum(ws)
        if abs(s) < 1e-9 and len(ws) > 1:
            s = 0
        if s != ref.noEdge:
            r.w[t] = s
            if not ref.directed:
                r.w[(t[1], t[0])] = s
    return r, summed


def close_compare(cx, net, want, mech):
    """As model.compare, with float tolerance on the weights (links with weight about zero may be absent)."""
    nolinks = Ref(want.aspects, want.directed, want.noEdge, want.full, want.couplings)
    nolinks.nodes, nolinks.layers, nolinks.nls = want.nodes, want.layers, want.nls
    model.compare(cx, net, nolinks, mech, links=False)
    miss = want.noEdge if isinstance(want.noEdge, (int, float)) else None
    there = lambda x: miss is None or abs(x - miss) > 1e-9
    e = {k: w for k, w in model.edge_set(net).items() if there(w)}
    w = {k: x for k, x in Index(want).edges().items() if there(x)}
    cx.eq(mech + ":edges", set(e), set(w), "set of links")
    for k in w:
        cx.close(mech + ":weight", e[k], w[k], "weight of %r" % (k,))
    for k in w:
        t = tuple(k) if len(k) == 2 else tuple(k) * 2
        cx.close(mech + ":read", net[interleave(*t)], w[k], "read of %r" % (k,))


class Overlay(core.Check):
    id = "C12"
    quick, thorough = 6000, 40000
    files = ["pymnet/transforms.py"]
    minima = {"overlays": 2000, "summed": 500, "directed": 200}
    rule = ("case: random general or multiplex network with one aspect; the overlay network must have every node and "
            "as weight between two different nodes the sum of their intra-layer link weights. Non-trivial: at least two "
            "layers contribute to a link; distinct by network")

    def case(self, rng, cx, i):
        pm = self.pm
        if rng.random() < 0.5:
            ref = gen.multiplex(rng, aspects=1, sortable=False, noEdge=gen.no_edge(rng))
        else:
            ref = gen.general(rng, aspects=1, sortable=False, self_loops=False, noEdge=gen.no_edge(rng))
        net = build(pm, rng, cx, ref)
        got = pm.transforms.overlay_network(net)
        want = Ref(0, ref.directed, 0, True)
        want.nodes = set(ref.nodes)
        n = {}
        for (a, b), w in ref.w.items():
            if a[1:] == b[1:] and a != b:
                k = (a[:1], b[:1])
                want.w[k] = want.w.get(k, 0) + w
                n[k] = n.get(k, 0) + 1
        cx.count("overlays")
        if ref.directed:
            cx.count("directed")
        cx.count("summed", len([1 for v in n.values() if v > 1]))
        close_compare(cx, got, want, "overlay")
        model.compare(cx, net, ref, "original-changed", rng=rng, maxpairs=100)
        if any(v > 1 for v in n.values()):
            cx.key(gen.sig(ref))


def relabel_ref(ref, nm, lms):
    f = lambda nl: (nm.get(nl[0], nl[0]),) + tuple(m.get(x, x) for m, x in zip(lms, nl[1:]))
    cs = ref.couplings
    if cs is not None:
        cs = list(cs)
        for a, c in enumerate(cs):
            if c[0] == "network":
                g = lambda x: lms[a].get(x, x)
                cs[a] = ("network", {(g(x), g(y)): w for (x, y), w in c[1].items()}, tuple(g(x) for x in c[2]))
    r = Ref(ref.aspects, ref.directed, ref.noEdge, ref.full, cs)
    r.nodes = {nm.get(n, n) for n in ref.nodes}
    r.layers = [{m.get(x, x) for x in l} for m, l in zip(lms, ref.layers)]
    r.nls = {f(x) for x in ref.nls}
    r.w = {(f(a), f(b)): w for (a, b), w in ref.w.items()}
    return r


class Relabel(core.Check):
    id = "C13"
    quick, thorough = 6000, 40000
    files = ["pymnet/transforms.py"]
    minima = {"relabels": 1000, "normalizations": 800, "swaps": 150, "roundtrips": 300}
    rule = ("case: random general or multiplex network, random injective (possibly partial, possibly permuting) maps of "
            "nodes and layers through relabel, or normalize with random starts and returned maps: nodes, layers, "
            "node-layers and all links are compared under the map; maps returned by normalize must be the order "
            "preserving bijection. Non-trivial: at least one link and one renamed label; distinct by network and map")

    def case(self, rng, cx, i):
        pm = self.pm
        mp = rng.random() < 0.5
        norm = rng.random() < 0.45
        if mp:
            ref = gen.multiplex(rng, noEdge=gen.no_edge(rng), sortable=norm, mixed=not norm)
        else:
            ref = gen.general(rng, noEdge=gen.no_edge(rng), sortable=norm)
        net = build(pm, rng, cx, ref)
        if norm:
            return self.normalize(rng, cx, ref, net)
        cx.count("relabels")
        nm = self.mapping(rng, ref.nodes, cx)
        lms = []
        for a, l in enumerate(ref.layers):
            if ref.couplings and ref.couplings[a][0] == "ordinal":
                sh = rng.choice([0, 1, 10, -1])
                m = {x: x + sh for x in l}
                if rng.random() < 0.4:     # any integer relabeling, the coupling follows the new labels
                    t = rng.sample(range(50, 60), len(l))
                    m = dict(zip(sorted(l), t))
                lms.append(m if rng.random() < 0.8 else {})
            else:
                lms.append(self.mapping(rng, l, cx))
        args, eff = {}, ({}, [{} for _ in lms])
        if rng.random() < 0.85:
            args["nodeNames"] = nm
            eff = (nm, eff[1])
        elif rng.random() < 0.5:
            args["nodeNames"] = None
        if ref.aspects and rng.random() < 0.85:
            if ref.aspects == 1 and rng.random() < 0.5:
                args["layerNames"] = lms[0]
            else:
                k = rng.choice([ref.aspects, ref.aspects, rng.randint(0, ref.aspects)])
                lms = lms[:k] + [{}] * (ref.aspects - k)
                args["layerNames"] = lms[:k]
            eff = (eff[0], lms)
        snapshot = repr(args)
        cx.log(("relabel", snapshot))
        got = pm.transforms.relabel(net, **args)
        cx.eq("arguments-changed", repr(args), snapshot, "arguments after relabel")
        want = relabel_ref(ref, eff[0], eff[1])
        cx.true("type", type(got) is type(net), "type of the relabeled network")
        model.compare(cx, got, want, "relabel", rng=rng, maxpairs=400)
        model.compare(cx, net, ref, "original-changed", rng=rng, maxpairs=100)
        if rng.random() < 0.5:
            inv = lambda m, dom: {m.get(x, x): x for x in dom}
            back = pm.transforms.relabel(got, nodeNames=inv(eff[0], ref.nodes),
                                         layerNames=[inv(m, l) for m, l in zip(eff[1], ref.layers)])
            cx.count("roundtrips")
            cx.eq("roundtrip", back == net, True, "relabeling back gives an equal network")
        got.add_node("fresh node")
        cx.true("copy-aliases-original", "fresh node" not in set(net), "node added to the copy appeared in the original")
        if ref.w and any(k != v for k, v in list(eff[0].items())):
            cx.key(gen.sig(ref), snapshot)

    def mapping(self, rng, dom, cx):
        dom = sorted(dom, key=repr)
        r = rng.random()
        if r < 0.2:
            return {}
        if r < 0.45 and len(dom) > 1:       # permutation of the labels
            t = gen.shuffled(rng, dom)
            if t != dom:
                cx.count("swaps")
            return dict(zip(dom, t))
        fresh = ["new%d" % k for k in range(len(dom))] if rng.random() < 0.5 else list(range(1000, 1000 + len(dom)))
        m = dict(zip(dom, gen.shuffled(rng, fresh)))
        if r > 0.75:
            m = {k: v for k, v in m.items() if rng.random() < 0.5}
        if rng.random() < 0.2:
            m["label not in the network"] = "other"
        return m

    def normalize(self, rng, cx, ref, net):
        pm = self.pm
        cx.count("normalizations")
        args = {}
        ns, ls = 0, 0
        if rng.random() < 0.4:
            ns = args["nodeStart"] = rng.choice([0, 1, 5, -2])
        if rng.random() < 0.4:
            ls = args["layerStart"] = rng.choice([0, 1, 5, -2])
        n2i = rng.choice([None, None, True, False])
        l2i = rng.choice([None, None, True, False])
        if n2i is not None:
            args["nodesToIndices"] = n2i
        if l2i is not None:
            args["layersToIndices"] = l2i
        cx.log(("normalize", args))
        nm = {n: k + ns for k, n in enumerate(sorted(ref.nodes))}
        lms = [{n: k + ls for k, n in enumerate(sorted(l))} for l in ref.layers]
        res = pm.transforms.normalize(net, **args)
        want = relabel_ref(ref, nm, lms)
        parts = res if isinstance(res, tuple) else (res,)
        cx.eq("returned", len(parts), 1 + (n2i is not None) + (l2i is not None), "number of returned values")
        cx.true("type", type(parts[0]) is type(net), "type of the normalized network")
        model.compare(cx, parts[0], want, "normalize", rng=rng, maxpairs=400)
        model.compare(cx, net, ref, "original-changed", rng=rng, maxpairs=100)
        inv = lambda m: {v: k for k, v in m.items()}
        k = 1
        if n2i is not None:
            cx.eq("node-map", parts[1], nm if n2i else inv(nm), "returned node map")
            k = 2
        if l2i is not None:
            w = [m if l2i else inv(m) for m in lms]
            cx.eq("layer-map", parts[k], w[0] if ref.aspects == 1 else w, "returned layer map")
        if ref.w:
            cx.key(gen.sig(ref), repr(args))


class Threshold(core.Check):
    id = "C14"
    quick, thorough = 6000, 40000
    files = ["pymnet/transforms.py"]
    minima = {"thresholds": 2000, "partial": 500, "uncoupled_multiplex": 100, "boundary": 300}
    rule = ("case: random general or multiplex network, a threshold (often equal to an occurring weight) and one of the "
            "four comparison rules: nodes, layers and node-layers are kept and exactly the links accepted by the rule "
            "remain with their weights. Non-trivial: some links kept and some dropped; distinct by network, threshold, "
            "rule")

    def case(self, rng, cx, i):
        pm = self.pm
        mp = rng.random() < 0.5
        wk = rng.choice(["int", "float", "signed", "unit"])
        kinds = ["none"] if rng.random() < 0.4 else None
        ref = gen.multiplex(rng, noEdge=gen.no_edge(rng), sortable=False, wkind=wk, kinds=kinds) if mp else gen.general(rng, noEdge=gen.no_edge(rng), sortable=False, wkind=wk)
        net = build(pm, rng, cx, ref)
        keepm = mp and all(c[0] == "none" for c in ref.couplings)
        src = ref if keepm else explicit(ref)
        ws = sorted(set(src.w.values()))
        t = rng.choice(ws) if ws and rng.random() < 0.7 else rng.choice([0, 1, 2.5, -1, 1e5])
        method = rng.choice([">=", "<=", ">", "<", None])
        cx.log(("threshold", t, method))
        got = pm.transforms.threshold(net, t) if method is None else pm.transforms.threshold(net, t, method=method)
        ok = {">=": lambda w: w >= t, "<=": lambda w: w <= t, ">": lambda w: w > t, "<": lambda w: w < t}[method or ">="]
        want = src.copy()
        want.w = {k: w for k, w in src.w.items() if ok(w)}
        cx.count("thresholds")
        if t in ws:
            cx.count("boundary")
        if keepm:
            cx.count("uncoupled_multiplex")
        cx.true("type", isinstance(got, pm.MultiplexNetwork) == keepm, "type of the thresholded network is %s" % type(got))
        model.compare(cx, got, want, "threshold", rng=rng, maxpairs=400)
        model.compare(cx, net, ref, "original-changed", rng=rng, maxpairs=100)
        if 0 < len(want.w) < len(src.w):
            cx.count("partial")
            cx.key(gen.sig(ref), t, method)
        if rng.random() < 0.1 and src.w:
            cx.raises("bad-rule", Exception, pm.transforms.threshold, net, t, method="==")


class SubnetIter(core.Check):
    id = "C15"
    quick, thorough = 5000, 20000
    files = ["pymnet/transforms.py"]
    minima = {"iterators": 250, "subnetworks": 8000, "mplex": 60}
    rule = ("case: small random general or multiplex network, random removable aspects and edge removal on or off: the "
            "iterator must produce exactly the expected multiset of subnetworks (every non-empty selection of removable "
            "elementary layers times every subset of the non-coupling links of the induced subnetwork). Non-trivial: "
            "more than one subnetwork; distinct by network and parameters")

    def case(self, rng, cx, i):
        pm = self.pm
        mp = rng.random() < 0.5
        if mp:
            asp = rng.choice([1, 1, 2])
            ref = gen.multiplex(rng, noEdge=gen.no_edge(rng), aspects=asp, n=rng.randint(1, 3), nl=[rng.randint(1, 2) for _ in range(asp)], density=rng.choice([0.2, 0.4, 0.7]))
        else:
            asp = rng.choice([0, 1, 1, 2])
            ref = gen.general(rng, noEdge=gen.no_edge(rng), aspects=asp, n=rng.randint(1, 4 if asp == 0 else 3), nl=[rng.randint(1, 2) for _ in range(asp)],
                              density=rng.choice([0.1, 0.2, 0.3]), sortable=False)
        rem = [a for a in range(ref.aspects + 1) if rng.random() < 0.5]
        edges = rng.random() < 0.7
        want = collections.Counter()
        total = 0
        sels = []
        for a in range(ref.aspects + 1):
            dom = sorted(ref.nodes if a == 0 else ref.layers[a - 1], key=repr)
            sels.append([c for k in range(1, len(dom) + 1) for c in itertools.combinations(dom, k)] if a in rem else [tuple(dom)])
        for sel in itertools.product(*sels):
            s = sub_ref(ref, set(sel[0]), [set(x) for x in sel[1:]])
            total += 2 ** len(plain_edges(s)) if edges else 1
            if total > 700:
                return
        for sel in itertools.product(*sels):
            s = sub_ref(ref, set(sel[0]), [set(x) for x in sel[1:]])
            es = plain_edges(s)
            for k in (range(len(es) + 1) if edges else [len(es)]):
                for comb in itertools.combinations(es, k):
                    want[content(s, dict(comb))] += 1
        net = build(pm, rng, cx, ref)
        args = {"remove_elayers": rem}
        if not edges or rng.random() < 0.5:
            args["remove_edges"] = edges
        cx.log(("subnet_iter", args))
        got = collections.Counter()
        n = 0
        for s in pm.transforms.subnet_iter(net, **args):
            n += 1
            cx.true("type", type(s) is type(net), "type of the subnetwork")
            if n > total:
                cx.fail("too-many", "more than the %d expected subnetworks" % total)
            got[observed(s, mp)] += 1
            if rng.random() < 0.1 and mp:
                cx.eq("couplings", s.couplings == net.couplings, True, "couplings of the subnetwork")
        cx.count("iterators")
        cx.count("subnetworks", n)
        if mp:
            cx.count("mplex")
        if got != want:
            cx.fail("multiset", "missing %r, extra %r" % (list((want - got).items())[:2], list((got - want).items())[:2]))
        model.compare(cx, net, ref, "original-changed")
        if total > 1:
            cx.key(gen.sig(ref), repr(args))


def plain_edges(ref):
    r = {}
    for (a, b), w in ref.w.items():
        r[(a, b) if ref.directed else frozenset((a, b))] = w
    return sorted(r.items(), key=repr)


def content(s, edges):
    return repr((sorted(map(repr, s.nodes)), [sorted(map(repr, l)) for l in s.layers], sorted(map(repr, s.node_layers())),
                 sorted((sorted(map(repr, k)) if isinstance(k, frozenset) else [repr(x) for x in k], repr(w)) for k, w in edges.items())))


def observed(net, mp):
    e = model.edge_set(net)
    if mp:
        e = {k: w for k, w in e.items() if len({x[1:] for x in k}) == 1}
    return repr((sorted(map(repr, net)), [sorted(map(repr, net.get_layers(a))) for a in range(1, net.aspects + 1)],
                 sorted(map(repr, net.iter_node_layers())),
                 sorted((sorted(map(repr, k)) if isinstance(k, frozenset) else [repr(x) for x in k], repr(w)) for k, w in e.items())))


class Underlying(core.Check):
    id = "C16"
    quick, thorough = 6000, 40000
    files = ["pymnet/transforms.py"]
    minima = {"underlying": 700, "randomized_layers": 1500, "changed_layers": 300, "reach_checks": 10, "arrangements": 100}
    rule = ("case: random network and its underlying graph (one string-named node per node-layer, one link per link), or "
            "random one-aspect multiplex network and randomize_nodes_by_layer (per layer the same nodes and a network "
            "isomorphic to the original one, found by canonical search; other layers, couplings and original unchanged; the frequency "
            "of every arrangement over 600 randomizations of small networks must fit equal probabilities). "
            "Non-trivial: at least one link; distinct by network")

    def case(self, rng, cx, i):
        pm = self.pm
        if rng.random() < 0.45:
            ref = gen.multiplex(rng, sortable=False, noEdge=gen.no_edge(rng)) if rng.random() < 0.5 else gen.general(rng, sortable=False, noEdge=gen.no_edge(rng))
            net = build(pm, rng, cx, ref)
            g = pm.transforms.get_underlying_graph(net)
            want = Ref(0, ref.directed, ref.noEdge)
            want.nodes = {str(nl) for nl in ref.node_layers()}
            want.w = {((str(a),), (str(b),)): w for (a, b), w in ref.links().items()}
            cx.count("underlying")
            cx.true("type", type(g) is pm.MultilayerNetwork, "type of the underlying graph")
            model.compare(cx, g, want, "underlying", rng=rng, maxpairs=600)
        else:
            ref = gen.multiplex(rng, noEdge=gen.no_edge(rng), aspects=1, sortable=False, n=rng.choice([1, 2, 3, 4, 5, 6]))
            net = build(pm, rng, cx, ref)
            r = pm.transforms.randomize_nodes_by_layer(net)
            cx.true("type", type(r) is type(net), "type of the randomized network")
            cx.eq("couplings", r.couplings == net.couplings, True, "couplings")
            cx.eq("layers", set(r.get_layers(1)), ref.layers[0], "layers")
            if ref.layers[0]:
                cx.eq("nodes", set(r), ref.nodes if ref.full else {nl[0] for nl in ref.nls}, "nodes")
            cx.eq("nodelayers", set(r.iter_node_layers()), ref.node_layers(), "node-layers")
            for l in sorted(ref.layers[0], key=repr):
                cx.count("randomized_layers")
                ns = sorted(ref.nodes if ref.full else {nl[0] for nl in ref.nls if nl[1] == l}, key=repr)
                cx.eq("layer-nodes", set(r.A[l]), set(ns), "nodes of layer %r" % (l,))
                w1 = {(a[0], b[0]): w for (a, b), w in ref.w.items() if a[1] == l}
                w2 = {}
                for a, b, w in r.A[l].edges:
                    w2[(a, b)] = w
                    if not ref.directed:
                        w2[(b, a)] = w
                for (a, b), w in w2.items():
                    cx.eq("layer-read", r[a, b, l], w, "link through the network")
                if w1 != w2:
                    cx.count("changed_layers")
                if not isomorphic(ns, w1, w2):
                    cx.fail("not-isomorphic", "layer %r with links %r became %r" % (l, w1, w2))
            if i % 40 == 3:
                self.reach(rng, cx)
        model.compare(cx, net, ref, "original-changed", rng=rng, maxpairs=100)
        if ref.w:
            cx.key(gen.sig(ref))

    def reach(self, rng, cx):
        """Every arrangement of the nodes of a layer is equally likely, independently of the other layers."""
        pm = self.pm
        n, nl, directed = rng.choice([2, 3, 3, 4]), 2, rng.random() < 0.3
        if n == 4:
            nl = 1
        names = gen.shuffled(rng, rng.choice([range(n), "wxyz"[:n], [0.5, "a", 3, -1][:n]]))
        net = pm.MultiplexNetwork(couplings="categorical", directed=directed, fullyInterconnected=rng.random() < 0.5)
        layers = ["a", "b"][:nl]
        arrs = []
        for l in layers:
            net.add_layer(l)
            for x in names:
                net.add_node(x, layer=l)
            pairs = list(itertools.permutations(names, 2) if directed else itertools.combinations(names, 2))
            ls = rng.sample(pairs, rng.randrange(1, len(pairs) + 1))
            wk = rng.random() < 0.5
            w = {p: (rng.choice([1, 2]) if wk else 1) for p in ls}
            for (x, y), v in w.items():
                net[x, y, l] = v
            arr = {}
            for perm in itertools.permutations(names):
                m = dict(zip(names, perm))
                k = frozenset(((m[x], m[y]) if directed else frozenset((m[x], m[y])), v) for (x, y), v in w.items())
                arr[k] = arr.get(k, 0) + 1.0 / math.factorial(n)
            arrs.append(arr)
        runs = 600
        seen = {}
        for _ in range(runs):
            r = pm.transforms.randomize_nodes_by_layer(net)
            k = tuple(frozenset(((x, y) if directed else frozenset((x, y)), v) for x, y, v in r.A[l].edges) for l in layers)
            seen[k] = seen.get(k, 0) + 1
        cx.count("reach_checks")
        cx.count("arrangements", len(seen))
        for c in itertools.product(*arrs):
            p = 1.0
            for arr, k in zip(arrs, c):
                p *= arr[k]
            got = seen.pop(c, 0)
            if abs(got - runs * p) > 6 * math.sqrt(runs * p * (1 - p)) + 2:
                cx.fail("not-uniform", "arrangement %r of nodes %r came up %d times in %d randomizations; its probability is %.4f" % (c, names, got, runs, p))
        if seen:
            cx.fail("not-isomorphic", "randomizing gave %r" % (next(iter(seen)),))


def isomorphic(ns, w1, w2):
    """Exact test by backtracking (at most 7 nodes)."""
    if sorted(w1.values()) != sorted(w2.values()):
        return False
    sig = lambda w: {n: (tuple(sorted(x for (a, b), x in w.items() if a == n)), tuple(sorted(x for (a, b), x in w.items() if b == n))) for n in ns}
    s1, s2 = sig(w1), sig(w2)

    def rec(k, m, used):
        if k == len(ns):
            return True
        n = ns[k]
        for t in ns:
            if t in used or s1[n] != s2[t]:
                continue
            ok = all(w1.get((n, x)) == w2.get((t, y)) and w1.get((x, n)) == w2.get((y, t)) for x, y in m.items())
            if ok:
                m[n] = t
                if rec(k + 1, m, used | {t}):
                    return True
                del m[n]
        return False
    return rec(0, {}, frozenset())
