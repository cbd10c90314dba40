"""Monitors that span the library: copies of networks, and functions that only look at networks."""
import copy, io, itertools, os, pickle, random, shutil, tempfile
from lib import core, gen, model
from lib.model import Ref, interleave, lay


def any_network(rng, **kw):
    """Random reference network of any kind."""
    if rng.random() < 0.55:
        return gen.multiplex(rng, noEdge=gen.no_edge(rng), **kw)
    return gen.general(rng, noEdge=gen.no_edge(rng), **kw)


def mutate(rng, cx, net, ref, k, tag):
    """k random changes through the public interface, mirrored in ref. Returns how many were made."""
    mp = ref.couplings is not None
    done = 0
    for j in range(k):
        op = rng.choice(["link", "link", "link", "delete", "delete", "overwrite", "node", "layer", "layer-node", "intra"])
        nls = sorted(ref.node_layers(), key=repr)
        links = sorted(ref.w, key=repr)
        if op in ("link", "intra") and len(nls) > 1:
            a, b = rng.sample(nls, 2)
            if mp:
                b = (b[0],) + a[1:]
                if a[0] == b[0]:
                    continue
                if op == "intra":
                    net.A[lay(a[1:])][a[0], b[0]] = 3.5
                    ref.set(a, b, 3.5)
                    cx.count("through_layer")
                    done += 1
                    continue
            w = rng.choice([1, 2.5, 4])
            net[interleave(a, b)] = w
            ref.set(a, b, w)
        elif op in ("delete", "overwrite") and links:
            a, b = rng.choice(links)
            w = ref.noEdge if op == "delete" else 17
            net[interleave(a, b)] = w
            ref.set(a, b, w)
        elif op == "node":
            n = "new-%s-%d" % (tag, j)
            net.add_node(n)
            ref.add_node(n)
        elif op == "layer-node" and ref.aspects and all(ref.layers) and not ref.full:
            n = "new-%s-%d" % (tag, j)
            l = tuple(rng.choice(sorted(s, key=repr)) for s in ref.layers)
            if mp and rng.random() < 0.5:
                net.A[lay(l)].add_node(n)
                cx.count("through_layer")
            else:
                net.add_node(n, layer=lay(l))
            ref.add_node(n, l)
        elif op == "layer" and ref.aspects:
            a = rng.randrange(1, ref.aspects + 1)
            if mp and ref.couplings[a - 1][0] not in ("categorical", "none"):
                continue
            net.add_layer("layer-%s-%d" % (tag, j), a)
            ref.add_layer("layer-%s-%d" % (tag, j), a)
        else:
            continue
        done += 1
    return done


def measures(net, ref):
    """Degrees, strengths and neighbors of all node-layers."""
    out = {"len": len(net), "links": len(net.edges)}
    for x in sorted(ref.node_layers(), key=repr)[:60]:
        node = net[model.key(net, x)]
        out[x] = (node.deg(), node.deg_in(), node.deg_out(), node.deg_total(), node.str(), node.str_in(), node.str_out(),
                  sorted(map(repr, node)), sorted(map(repr, node.iter_in())), sorted(map(repr, node.iter_out())))
    return out


class Copies(core.Check):
    id = "C41"
    quick, thorough = 3000, 30000
    files = ["pymnet/net.py"]
    minima = {"pickle": 600, "deepcopy": 250, "changes": 2000, "through_layer": 80, "multiplex": 600, "general": 500, "nonfull": 400,
              "network_coupling": 100, "original_changed": 500, "copy_of_copy": 150}
    rule = ("case: a random network of any kind is copied by pickling (all protocols) or deep copying; the copy must be "
            "equal to and have exactly the content of the original; random changes are then made to one of the two, also "
            "through the networks of single layers, and both are compared with their own references. Non-trivial: at least one "
            "link and one change; distinct by network and kind of copy")
    assumptions = ["names and weights can be pickled"]

    def case(self, rng, cx, i):
        pm = self.pm
        ref = any_network(rng, sortable=False)
        cx.log(gen.describe(ref))
        cx.sample(gen.describe(ref))
        net = model.build(pm, ref, gen.shuffled(rng, ref.w))
        cx.count("multiplex" if ref.couplings is not None else "general")
        if not ref.full:
            cx.count("nonfull")
        if ref.couplings is not None and any(c[0] == "network" for c in ref.couplings):
            cx.count("network_coupling")
        kind = rng.choice(["deepcopy", "deepcopy", 0, 1, 2, 3, 4, 5])
        c = self.copy(cx, net, kind)
        for _ in range(2):
            cx.true("type", type(c) is type(net), "the copy (%r) is a %s" % (kind, type(c).__name__))
            cx.true("equal", c == net and net == c and not (c != net), "the copy (%r) is not equal to the original" % (kind,))
            model.compare(cx, c, ref, "content", rng=rng, maxpairs=400)
            self.same(cx, "measures", measures(c, ref), measures(net, ref), "degrees, strengths, neighbors and numbers of links of the copy (%r)" % (kind,))
            if rng.random() < 0.8:
                break
            cx.count("copy_of_copy")
            kind = rng.choice(["deepcopy", 2])
            c = self.copy(cx, c, kind)
        if ref.couplings is not None:
            for l in ref.all_layers():
                if not ref.full and rng.random() < 0.5:
                    continue
                cx.eq("layer-nodes", sorted(map(repr, c.A[lay(l)])), sorted(map(repr, net.A[lay(l)])), "nodes of layer %r in the copy" % (l,))
        other = ref.copy()
        first, second = (net, c) if rng.random() < 0.5 else (c, net)
        if first is net:
            cx.count("original_changed")
        k = mutate(rng, cx, first, other, rng.randrange(1, 6), "a")
        cx.count("changes", k)
        who = lambda n: "original" if n is net else "copy"
        model.compare(cx, second, ref, "independent:" + who(second), rng=rng, maxpairs=200)
        model.compare(cx, first, other, "works:" + who(first), rng=rng, maxpairs=200)
        if rng.random() < 0.3:
            self.same(cx, "measures-later", measures(first, other), measures(model.build(pm, other), other), "degrees and strengths after the changes")
        if rng.random() < 0.5:
            k2 = mutate(rng, cx, second, ref, rng.randrange(1, 5), "b")
            cx.count("changes", k2)
            model.compare(cx, first, other, "independent:" + who(first), rng=rng, maxpairs=200)
            model.compare(cx, second, ref, "works:" + who(second), rng=rng, maxpairs=200)
        if ref.w and k:
            cx.key(gen.sig(ref), kind)

    def same(self, cx, mech, got, want, what):
        cx.true(mech, agree(got, want), "%s: %s" % (what, [(k, got.get(k), want[k]) for k in want if not agree(got.get(k), want[k])][:3]))

    def copy(self, cx, net, kind):
        cx.log("copy", kind)
        if kind == "deepcopy":
            cx.count("deepcopy")
            return copy.deepcopy(net)
        cx.count("pickle")
        return pickle.loads(pickle.dumps(net, kind))



def agree(a, b):
    """Equal results; floats up to rounding, networks by content, the order of sets and dictionaries does not matter."""
    import numpy
    if hasattr(a, "iter_node_layers") and hasattr(b, "iter_node_layers"):
        x, y = model.structure(a), model.structure(b)
        x.pop("edges"), y.pop("edges")
        return x == y and agree(model.edge_set(a), model.edge_set(b))
    if isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray):
        a, b = numpy.asarray(a), numpy.asarray(b)
        return a.shape == b.shape and all(agree(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(agree(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-7 * max(1, abs(a), abs(b))
    return a == b


def poke(net, tag):
    """Change a network in every way its class allows."""
    mp = hasattr(net, "couplings")
    nls = sorted(net.iter_node_layers(), key=repr)
    for a, b in itertools.permutations(nls[:6], 2):
        if not mp or (a[1:] == b[1:] and a[0] != b[0]):
            net[interleave(a, b)] = 41
            break
    es = sorted(model.edge_set(net), key=repr)
    for e in es[:3]:
        e = tuple(e)
        a, b = e if len(e) == 2 else (e[0], e[0])
        if not mp or a[1:] == b[1:]:
            net[interleave(a, b)] = net.noEdge
    net.add_node("poke-" + tag)
    if net.aspects and not (mp and any(c[0] not in ("categorical", "none") for c in net.couplings)):
        net.add_layer("poke-" + tag, 1)
    elif not net.fullyInterconnected and nls:
        net.add_node("poke2-" + tag, layer=lay(nls[0][1:]))


def history(rng, pm, ref):
    """A network with the content of ref that got it in another way."""
    p = rng.random()
    if p < 0.3:
        net = model.build(pm, ref, gen.shuffled(rng, ref.w))
        return copy.deepcopy(net) if p < 0.1 else pickle.loads(pickle.dumps(net, rng.choice([0, 2, 4])))
    net = model.build(pm, ref, [])
    links = gen.shuffled(rng, ref.w)
    nls = sorted(ref.node_layers(), key=repr)
    junk = []
    for _ in range(rng.randrange(0, 6)):
        if len(nls) > 1:
            a, b = rng.sample(nls, 2)
            if ref.couplings is not None:
                b = (b[0],) + a[1:]
                if a[0] == b[0] or b not in nls:
                    continue
            junk.append((a, b))
            net[interleave(a, b)] = 23
    for a, b in links:
        if rng.random() < 0.3:
            net[interleave(a, b)] = 29
    for a, b in junk:
        if (a, b) not in ref.w:
            net[interleave(a, b)] = ref.noEdge
    for a, b in gen.shuffled(rng, links):
        if ref.couplings is not None and rng.random() < 0.3:
            net.A[lay(a[1:])][a[0], b[0]] = ref.w[a, b]
        else:
            net[interleave(a, b)] = ref.w[a, b]
    for n in ref.nodes:
        if rng.random() < 0.3:
            net.add_node(n)
    return net


def ordered(ref):
    """True if the names of the nodes, and the names of the layers of each aspect, have a unique order."""
    try:
        for names in [ref.nodes] + list(ref.layers):
            l = sorted(names)
            if not all(x < y for x, y in zip(l, l[1:])):
                return False
        return True
    except TypeError:
        return False


class Pure(core.Check):
    id = "C42"
    quick, thorough = 700, 10000
    case_seconds, slow_ok = 60, 0.002  # the isomorphism search of networkx takes exponential time in rare networks
    files = ["pymnet/transforms.py", "pymnet/diagnostics.py", "pymnet/cc.py", "pymnet/netio.py", "pymnet/isomorphisms/__init__.py",
             "pymnet/isomorphisms/isomcore.py", "pymnet/isomorphisms/nxbackend.py", "pymnet/sampling/reqs.py", "pymnet/sampling/dumb.py",
             "pymnet/sampling/esu.py", "pymnet/graphlets/graphlet_measures.py", "pymnet/visuals/layouts.py", "pymnet/nxwrap.py", "pymnet/net.py"]
    minima = {"calls": 15000, "values": 10000, "twin": 5000, "arguments": 3000, "results_changed": 800, "sources_changed": 800,
              "random_state": 5000, "multiplex": 200, "general": 150}
    rule = ("case: a random network and a twin with the same content and another history (links set in another order, overwritten, "
            "added and removed again, or a copy); every function that only looks at networks is called twice on the one and once on the "
            "other, in random order: the network, the arguments and (for functions without randomness) the state of the random number "
            "generator must not change, and all results must agree. Networks returned are then changed, and so are their sources: neither "
            "may show in the other. Non-trivial: at least one link and ten results; distinct by network")
    assumptions = ["calls outside of the domain of a function must fail in the same way on both networks"]

    def battery(self, pm, ref, c):
        """name -> (function of a network, arguments that must not change). '~' marks functions using random numbers."""
        import networkx
        D, T, cc, S, nx = pm.diagnostics, pm.transforms, pm.cc, pm.sampling, pm.nx
        mp, one, flat = ref.couplings is not None, ref.aspects == 1, ref.aspects == 0
        nodes, nls = c["nodes"], c["nls"]
        F = {
            "degs": (lambda n: pm.degs(n), None),
            "degs-nodes": (lambda n: pm.degs(n, degstype="nodes"), None),
            "density": (lambda n: pm.density(n), None),
            "edges": (lambda n: model.edge_set(n), None),
            "sizes": (lambda n: (len(n), len(n.edges), len(list(n.iter_node_layers())), set(n)), None),
            "strengths": (lambda n: {x: n[model.key(n, x)].str() for x in nls}, None),
            "degrees": (lambda n: {x: (n[model.key(n, x)].deg(), n[model.key(n, x)].deg_in(), n[model.key(n, x)].deg_out()) for x in nls}, None),
            "neighbours": (lambda n: {x: set(n[model.key(n, x)]) for x in nls}, None),
            "subnet": (lambda n: pm.subnet(n, c["subnodes"], *c["sublayers"]), ("subnodes", "sublayers")),
            "subnet-all": (lambda n: pm.subnet(n, None, *([None] * ref.aspects)), None),
            "relabel": (lambda n: T.relabel(n, nodeNames=c["names"], layerNames=c["layernames"]), ("names", "layernames")),
            "threshold": (lambda n: T.threshold(n, 1), None),
            "threshold-less": (lambda n: T.threshold(n, 2, method="<", ignoreCouplingEdges=True), None),
            "underlying": (lambda n: T.get_underlying_graph(n), None),
            "equal": (lambda n: (n == c["net"], c["net"] == n, n != c["net"]), None),
        }
        for a in range(1, ref.aspects + 1):
            F["layers-%d" % a] = (lambda n, a=a: (set(n.get_layers(a)), set(n.iter_layers(a))), None)
            F["aggregate-%d" % a] = (lambda n, a=a: pm.aggregate(n, a), None)
        if ref.aspects > 1:
            F["aggregate-all"] = (lambda n: pm.aggregate(n, c["aspects"]), ("aspects",))
        if one:
            F["overlay"] = (lambda n: T.overlay_network(n), None)
            F["multiplex_degs"] = (lambda n: pm.multiplex_degs(n), None)
            F["multiplex_density"] = (lambda n: pm.multiplex_density(n), None)
            F["overlap_degs"] = (lambda n: {frozenset(k): v for k, v in D.overlap_degs(n).items()}, None)
            F["~random-layout"] = (lambda n: set(pm.visuals.layouts.get_layout("random", n)[0]), None)
            if not c["none"] and ref.noEdge == 0:
                F["~fr"] = (lambda n: self.keys(pm.visuals.layouts.get_fruchterman_reingold_multilayer_layout(n, iterations=2, nodeCoords=c["coords"])), ("coords",))
        if mp:
            F["json-size"] = (lambda n: len(pm.netio.write_json(n)), None)
            F["~randomize"] = (lambda n: set(T.randomize_nodes_by_layer(n)), None)
        if not c["mixed"]:
            F["normalize"] = (lambda n: T.normalize(n), None)
            F["normalize-dicts"] = (lambda n: T.normalize(n, nodesToIndices=True, layersToIndices=True, nodeStart=3), None)
            if ref.noEdge == 0:
                F["supra"] = (lambda n: pm.supra_adjacency_matrix(n), None)
                F["supra-no-couplings"] = (lambda n: pm.supra_adjacency_matrix(n, includeCouplings=False), None)
                if all(w > 0 for w in ref.w.values()) and not (mp and any(len(q) > 1 and q[0] != "network" and q[1] <= 0 for q in ref.couplings)):
                    F["dijkstra"] = (lambda n: D.dijkstra(n, c["sources"])[0], ("sources",))
        if flat and ref.noEdge == 0:
            v = lambda n: nx.MonoplexGraphNetworkxView(n)
            F["nx-degree"] = (lambda n: dict(networkx.degree(v(n))), None)
            F["nx-wrapped"] = (lambda n: dict(nx.degree(n)), None)
            if not ref.directed:
                F["nx-components"] = (lambda n: {frozenset(x) for x in nx.connected_components(n)}, None)
                F["nx-clustering"] = (lambda n: nx.clustering(n), None)
        loops = any(a == b for a, b in ref.w)
        if flat and not ref.directed and not loops and ref.noEdge == 0:
            F["gcc_zhang"] = (lambda n: pm.gcc_zhang(n), None)
            for x in nodes[:3]:
                F["lcc-%r" % (x,)] = (lambda n, x=x: pm.lcc(n, x), None)
                F["zhang-%r" % (x,)] = (lambda n, x=x: pm.cc_zhang(n, x), None)
                F["onnela-%r" % (x,)] = (lambda n, x=x: pm.cc_onnela(n, x), None)
                F["barrat-%r" % (x,)] = (lambda n, x=x: pm.cc_barrat(n, x), None)
        if mp and one and not ref.directed and ref.noEdge == 0 and ref.couplings[0][0] == "categorical":
            for x in nls[:2]:
                F["lcc_aw-%r" % (x,)] = (lambda n, x=x: cc.lcc_aw(n, x[0], x[1]), None)
                F["cycles-%r" % (x,)] = (lambda n, x=x: cc.elementary_cycles(n, x[0], x[1]), None)
            F["gcc_aw"] = (lambda n: cc.gcc_aw(n), None)
            F["avg_lcc_aw"] = (lambda n: cc.avg_lcc_aw(n), None)
            F["aw_vector"] = (lambda n: [sorted(q) for q in cc.cc_aw_vector(n)], None)
            F["moreno"] = (lambda n: cc.gcc_moreno2_seplayers(n), None)
            for x in nodes[:2]:
                F["sncc-%r" % (x,)] = (lambda n, x=x: cc.sncc_aw(n, x, anet=c["anet"]), ("anet",))
                F["barrett-%r" % (x,)] = (lambda n, x=x: cc.cc_barrett(n, x, c["anet"]), ("anet",))
                F["barrett-opt-%r" % (x,)] = (lambda n, x=x: cc.cc_barrett_optimized(n, x, c["anet"]), ("anet",))
                F["brodka-%r" % (x,)] = (lambda n, x=x: cc.lcc_brodka(n, x, anet=c["anet"]), ("anet",))
                F["criado-%r" % (x,)] = (lambda n, x=x: cc.lcc_criado(n, x, anet=c["anet"]), ("anet",))
                F["battiston-%r" % (x,)] = (lambda n, x=x: (cc.lcc_battiston1(n, x), cc.lcc_battiston2(n, x)), None)
        if len(nls) <= 8 and not ref.directed:
            F["isomorphic"] = (lambda n: pm.is_isomorphic(n, c["net"], allowed_aspects=c["allowed"], backend="nx"), ("allowed",))
            F["isomorphism"] = (lambda n: pm.get_isomorphism(n, c["net"], allowed_aspects=c["allowed"], backend="nx") is not None, ("allowed",))
        if one and not ref.directed and not loops and len(nodes) <= 5 and len(ref.layers[0]) <= 3:
            def collect(f, n, **k):
                out = []
                f(n, out, **k)
                return {(frozenset(a), frozenset(b)) for a, b in out}
            F["dumb"] = (lambda n: collect(S.dumb.dumb_enumeration, n, nnodes=2, nlayers=1), None)
            F["dumb-sizes"] = (lambda n: collect(S.dumb.dumb_enumeration, n, sizes=c["sizes"], intersections=c["inter"]), ("sizes", "inter"))
            F["~esu"] = (lambda n: collect(S.esu.sample_multilayer_subgraphs_esu, n, nnodes=2, nlayers=1, copy_network=True), None)
            F["~esu-nocopy"] = (lambda n: collect(S.esu.sample_multilayer_subgraphs_esu, n, sizes=c["sizes"], intersections=c["inter"], copy_network=False), ("sizes", "inter"))
            if nls:
                F["reqs"] = (lambda n: S.reqs.default_check_reqs(n, c["subnodes"], c["onelayer"], c["sizes1"], []), ("subnodes", "onelayer", "sizes1"))
                F["relaxed"] = (lambda n: S.reqs.relaxed_check_reqs(n, c["subnodes"], c["onelayer"]), ("subnodes", "onelayer"))
        return F

    def keys(self, r):
        """What coordinates were given to, without the random values."""
        return [set(q) for q in (r if isinstance(r, tuple) else (r,))]

    def show(self, r):
        return repr([(model.structure(x) if hasattr(x, "iter_node_layers") else x) for x in (r[1] if isinstance(r[1], tuple) else (r[1],))])[:1500]

    def call(self, f, net):
        try:
            return ("value", f(net))
        except (core.Violation, core.StepBudget, core.CaseTimeout):
            raise
        except Exception as e:
            return ("raised", type(e).__name__)

    def case(self, rng, cx, i):
        pm = self.pm
        ref = any_network(rng, sortable=rng.random() < 0.6, wkind=rng.choice(["unit", "int", "float", "signed", "pos"]))
        if len(ref.node_layers()) > 40:
            return
        cx.log(gen.describe(ref))
        cx.sample(gen.describe(ref))
        cx.count("multiplex" if ref.couplings is not None else "general")
        net = model.build(pm, ref, gen.shuffled(rng, ref.w))
        twin = history(rng, pm, ref)
        nodes, nls = sorted(ref.nodes, key=repr), sorted(ref.node_layers(), key=repr)
        kinds = lambda s: len({str if isinstance(x, str) else type(x) for x in s}) > 1 or any(isinstance(x, tuple) for x in s)
        c = {"nodes": nodes, "nls": nls, "net": net, "mixed": kinds(ref.nodes) or any(kinds(s) for s in ref.layers),
             "none": any(q[0] == "none" for q in ref.couplings or []),
             "subnodes": rng.sample(nodes, rng.randint(0, len(nodes))),
             "sublayers": [rng.sample(sorted(s, key=repr), rng.randint(0, len(s))) for s in ref.layers],
             "names": {n: "name %r" % (n,) for n in nodes if rng.random() < 0.5}, "layernames": [{} for _ in ref.layers],
             "aspects": list(range(1, ref.aspects + 1)), "coords": {n: (0.5, 0.25 * k) for k, n in enumerate(nodes[:2])},
             "sources": [model.key(net, x) if ref.aspects else x for x in nls[:2]] if ref.aspects else [(x[0],) for x in nls[:2]],
             "allowed": list(range(ref.aspects + 1)), "sizes": [1, 1], "inter": [1], "sizes1": [2],
             "onelayer": sorted(ref.layers[0], key=repr)[:1] if ref.aspects else []}
        if ref.aspects == 1 and ref.couplings is not None and ref.noEdge == 0:
            c["anet"] = pm.aggregate(model.build(pm, ref), 1)
        F = self.battery(pm, ref, c)
        if not ordered(ref):  # these number the nodes and layers in the order of their names
            F = {k: v for k, v in F.items() if k.split("-")[0] not in ("normalize", "supra")}
        before = model.structure(net)
        model.compare(cx, twin, ref, "twin-content", rng=rng, maxpairs=200)
        good = 0
        for name in gen.shuffled(rng, sorted(F)):
            f, args = F[name]
            frozen = {a: model.structure(c[a]) if a == "anet" else repr(c[a]) for a in args or ()}
            state = random.getstate()
            one = self.call(f, net)
            cx.count("calls")
            cx.count("values" if one[0] == "value" else "raised")
            if not name.startswith("~"):
                cx.count("random_state")
                cx.true("random-state:" + name.split("-")[0], random.getstate() == state, "%s changed the state of the random number generator" % name)
            if model.structure(net) != before:
                cx.eq("changed:" + name.split("-")[0], model.structure(net), before, "network after %s" % name)
            for a in args or ():
                cx.count("arguments")
                cx.eq("argument:" + name.split("-")[0], model.structure(c[a]) if a == "anet" else repr(c[a]), frozen[a], "argument %s of %s" % (a, name))
            again = self.call(f, net)
            cx.true("again:" + name.split("-")[0], one[0] == again[0] and agree(one[1], again[1]), "%s gave %s, then %s" % (name, self.show(one), self.show(again)))
            other = self.call(f, twin)
            cx.count("twin")
            cx.true("twin:" + name.split("-")[0], one[0] == other[0] and agree(one[1], other[1]), "%s gave %s, and %s on a network with equal content" % (name, self.show(one), self.show(other)))
            if one[0] != "value":
                continue
            good += 1
            for r in (one[1] if isinstance(one[1], tuple) else (one[1],)):
                if hasattr(r, "iter_node_layers") and r is not net:
                    self.separate(rng, cx, name, f, net, r, before, ref)
        model.compare(cx, net, ref, "content", rng=rng, maxpairs=200)
        model.compare(cx, twin, ref, "twin-content", rng=rng, maxpairs=200)
        if ref.w and good >= 10:
            cx.key(gen.sig(ref))

    def separate(self, rng, cx, name, f, net, r, before, ref):
        kind = name.split("-")[0]
        if rng.random() < 0.5:
            poke(r, "r")
            cx.count("results_changed")
            if model.structure(net) != before:
                cx.eq("shared:" + kind, model.structure(net), before, "network after a change of the result of %s" % name)
        else:
            src = model.build(self.pm, ref)
            got = self.call(f, src)
            for q in (got[1] if isinstance(got[1], tuple) else (got[1],)):
                if hasattr(q, "iter_node_layers"):
                    want = model.structure(q)
                    poke(src, "s")
                    cx.count("sources_changed")
                    cx.eq("shared-source:" + kind, model.structure(q), want, "result of %s after a change of its source" % name)
                    return


class Refused(core.Check):
    id = "C44"
    quick, thorough = 2500, 25000
    files = ["pymnet/net.py"]
    minima = {"refused": 3000, "multiplex": 500, "general": 500, "link": 800, "self_link": 300, "interlayer_link": 500, "unhashable": 800, "node_in_layer": 500, "indices": 500,
              "layer_network": 300, "through_layer": 200, "allowed_afterwards": 800}
    rule = ("case: a random network of any kind and up to eight changes that must be refused: links with wrong numbers of indices, with names that cannot be hashed, links "
            "between layers and self-links of multiplex networks, nodes for layers with wrong numbers of elements, layers for missing aspects, invalid networks for layers; with "
            "names of new and old nodes and layers, set or removed, through the network, node objects and layers. Each must raise an error and leave exactly the content of the "
            "network as it was; allowed changes in between must work. Non-trivial: at least three changes refused; distinct by network and changes")
    assumptions = []

    def attempts(self, rng, cx, pm, net, ref):
        """One change to be refused: kind, description, function."""
        mp, asp = ref.couplings is not None, ref.aspects
        nodes, lays = sorted(ref.nodes, key=repr), [sorted(s, key=repr) for s in ref.layers]
        ordinal = lambda a: mp and ref.couplings[a][0] == "ordinal"
        node = lambda: rng.choice(nodes) if nodes and rng.random() < 0.6 else "fresh node %d" % rng.randrange(5)
        elayer = lambda a: rng.choice(lays[a]) if lays[a] and rng.random() < 0.6 else (1000 + rng.randrange(5) if ordinal(a) else "fresh layer %d" % rng.randrange(5))
        layer = lambda: tuple(elayer(a) for a in range(asp))
        bad = rng.choice([[1], {}, {1: 2}, set(), [(1,), 2]])
        value = rng.choice([1, 2.5, ref.noEdge, ref.noEdge, 0, -1])
        kinds = ["indices", "unhashable", "unhashable"]
        if mp:
            kinds += ["self_link", "interlayer_link", "interlayer_link", "layer_network"]
        if asp:
            kinds += ["missing_aspect", "unhashable_layer"]
            if not ref.full:
                kinds += ["node_in_layer", "node_in_layer", "unhashable_node", "unhashable_node"]
        if mp:
            kinds.append("through_layer")
        kind = rng.choice(kinds)
        sett = lambda key: (lambda: net.__setitem__(key, value))
        if kind == "indices":
            good = {2 * (asp + 1), asp + 2}
            n = rng.choice([x for x in range(2, 2 * asp + 6) if x not in good])
            key = (node(), node()) + tuple("fresh %d" % j for j in range(n - 2))
            cx.count("link")
            return kind, ("net[%r]=%r" % (key, value)), sett(key)
        if kind in ("unhashable", "self_link", "interlayer_link"):
            cx.count("link")
            a, b = (node(),) + layer(), (node(),) + layer()
            if kind == "self_link":
                b = a
            elif mp:
                b = (b[0],) + a[1:]
            if kind == "interlayer_link":
                l = list(a[1:])
                while tuple(l) == a[1:]:
                    j = rng.randrange(asp)
                    l[j] = elayer(j)
                b = (rng.choice([a[0], node()]),) + tuple(l)
            key = list(interleave(a, b))
            if kind == "unhashable":
                key[rng.randrange(len(key))] = bad
            if rng.random() < 0.3 and asp:
                x, y = tuple(key[0::2]), tuple(key[1::2])
                if kind != "unhashable":
                    return kind, "net[%r][%r]=%r" % (x, y, value), lambda: net[x].__setitem__(y, value)
            if kind == "self_link" and rng.random() < 0.3:
                key = [a[0], a[0]] + list(a[1:])
            return kind, "net[%r]=%r" % (key, value), sett(tuple(key))
        if kind == "missing_aspect":
            j = asp + 1 + rng.randrange(3)
            return kind, "add_layer(.., %d)" % j, lambda: net.add_layer("fresh", j)
        if kind == "unhashable_layer":
            j = rng.randrange(1, asp + 1)
            if isinstance(bad, set):  # Python looks a set up as the frozenset with the same elements
                bad = [1]
            return kind, "add_layer(%r, %d)" % (bad, j), lambda: net.add_layer(bad, j)
        if kind == "unhashable_node":
            if rng.random() < 0.4:
                l = lay(layer())
                return kind, "add_node(%r, %r)" % (bad, l), lambda: net.add_node(bad, layer=l)
            l = list(layer())
            n = node()
            l[rng.randrange(asp)] = {} if asp == 1 else bad
            return kind, "add_node(%r, %r)" % (n, l), lambda: net.add_node(n, layer=l[0] if asp == 1 else tuple(l))
        if kind == "node_in_layer":
            n, k = node(), rng.choice([x for x in (2, 3, 4) if x != asp])
            if asp > 1 and rng.random() < 0.4:
                return kind, "add_node to an elementary layer", lambda: net.add_node(n, layer="fresh layer")
            l = tuple((rng.choice(lays[j % asp]) if lays[j % asp] and rng.random() < 0.5 else "fresh %d" % j) for j in range(k))
            if rng.random() < 0.3:
                l = list(l)
            return kind, "add_node(%r, layer=%r)" % (n, l), lambda: net.add_node(n, layer=l)
        old = [x for x in ref.all_layers()]
        if kind == "through_layer":
            if not old:
                return self.attempts(rng, cx, pm, net, ref)
            l, n, m = rng.choice(old), node(), node()
            key = rng.choice([(n,), (n, m, "fresh"), (n, bad), (bad, n), (n, m, 1, 2, 3)])
            if key == (n,):
                key = (n, m, "fresh", "fresh")
            return kind, "net.A[%r][%r]=1" % (l, key), lambda: net.A[lay(l)].__setitem__(key, 1)
        l = rng.choice(old) if old and rng.random() < 0.5 else None
        new = pm.MultilayerNetwork(aspects=0)
        new["fresh a", "fresh b"] = 1
        if l is None:
            l = tuple("missing %d" % j for j in range(asp))
        else:
            new = rng.choice([3, None, {}, pm.MultilayerNetwork(aspects=1), pm.MultiplexNetwork(couplings=["none"])])
        return kind, "net.A[%r]=%s" % (l, type(new).__name__), lambda: net.A.__setitem__(lay(l), new)

    def case(self, rng, cx, i):
        pm = self.pm
        ref = any_network(rng, sortable=False)
        cx.log(gen.describe(ref))
        cx.sample(gen.describe(ref))
        cx.count("multiplex" if ref.couplings is not None else "general")
        net = model.build(pm, ref, gen.shuffled(rng, ref.w))
        before = model.structure(net)
        done = []
        for _ in range(rng.randrange(1, 9)):
            kind, what, f = self.attempts(rng, cx, pm, net, ref)
            cx.log(("attempt", what))
            try:
                f()
            except (core.Violation, core.StepBudget, core.CaseTimeout):
                raise
            except Exception:
                pass
            else:
                cx.true("accepted:" + kind, False, "%s was accepted" % what)
            cx.count("refused")
            cx.count("unhashable" if kind.startswith("unhashable") else kind)
            done.append(kind)
            now = model.structure(net)
            if now != before:
                cx.eq("partial:" + kind, now, before, "network after the refused change %s" % what)
            if rng.random() < 0.3:
                if mutate(rng, cx, net, ref, 1, "m%d" % len(done)):
                    cx.count("allowed_afterwards")
                    before = model.structure(net)
        model.compare(cx, net, ref, "content", rng=rng, maxpairs=200)
        if len(done) > 2:
            cx.key(gen.sig(ref), tuple(sorted(done)))
