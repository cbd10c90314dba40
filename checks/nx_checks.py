"""Monitors for the networkx integration (nxwrap.py, reached as pymnet.nx)."""
import inspect, itertools, random
import networkx, numpy
from lib import core, gen, model
from lib.model import Ref

NX = networkx
GRAPH = networkx.Graph


def links_of(net):
    out = {}
    for e in net.edges:
        out[frozenset(e[:2])] = e[2]
    return out


def graph_key(g):
    """(nodes, {frozenset: weight}) of a plain Graph or a MultilayerNetwork."""
    if isinstance(g, GRAPH):
        return set(g), {frozenset((a, b)): d.get("weight", 1) for a, b, d in g.edges(data=True)}
    return set(g), links_of(g)


def num(r):
    return r


def dct(r):
    if hasattr(r, "items"):
        return {k: dct(v) for k, v in r.items()}
    if isinstance(r, (set, frozenset)):
        return r
    if hasattr(r, "__next__") or isinstance(r, (NX.classes.reportviews.DegreeView,)):
        return {k: dct(v) for k, v in r}
    return r


def groups(r):
    l = [frozenset(x) for x in r]
    return sorted(sorted(map(repr, x)) for x in l)


def items(r):
    return sorted(map(repr, r))


def pairs(r):
    return sorted(sorted(map(repr, x[:2])) for x in r)


def distdict(r):
    r = dct(r)
    return r


# name -> (normalizer, needs): functions of one network whose result does not depend on node order
ONE = {
    "connected_components": groups, "number_connected_components": num, "is_connected": num,
    "all_pairs_shortest_path_length": dct, "all_pairs_dijkstra_path_length": dct,
    "clustering": dct, "triangles": dct, "transitivity": num, "average_clustering": num, "square_clustering": dct,
    "degree_centrality": dct, "closeness_centrality": dct, "betweenness_centrality": dct,
    "density": num, "diameter": num, "radius": num, "eccentricity": dct, "center": items, "periphery": items,
    "core_number": dct, "is_bipartite": num, "is_tree": num, "is_forest": num, "bridges": pairs,
    "articulation_points": items, "biconnected_components": groups, "find_cliques": groups,
    "average_neighbor_degree": dct, "degree_histogram": list, "isolates": items, "number_of_isolates": num,
    "global_efficiency": num, "node_connectivity": num, "edge_connectivity": num, "is_eulerian": num,
    "is_chordal": num, "number_of_nodes": num, "number_of_edges": num, "nodes": items, "edges": pairs,
    "degree": dct, "harmonic_centrality": dct, "pagerank": dct, "non_edges": pairs, "number_of_selfloops": num,
    "average_shortest_path_length": num, "floyd_warshall": dct, "degree_assortativity_coefficient": num,
    "wiener_index": num, "to_dict_of_dicts": dct, "to_dict_of_lists": lambda r: {k: items(v) for k, v in r.items()},
    "average_degree_connectivity": dct, "local_efficiency": num, "constraint": dct,
    "katz_centrality_numpy": dct, "get_edge_attributes:weight": lambda r: sorted((sorted(map(repr, k)), v) for k, v in r.items()),
    "is_empty": num, "is_weighted": num, "is_directed": num, "nodes_with_selfloops": items, "is_k_regular:2": num,
    "tutte_polynomial": None,
}
ONE = {k: v for k, v in ONE.items() if v and hasattr(NX, k.split(":")[0])}
LOOPY = {"connected_components", "number_connected_components", "is_connected", "density", "number_of_edges", "degree",
         "nodes", "edges", "number_of_selfloops", "nodes_with_selfloops", "degree_centrality", "isolates",
         "all_pairs_shortest_path_length", "number_of_nodes", "is_bipartite", "triangles", "transitivity",
         "degree_histogram", "closeness_centrality", "to_dict_of_lists", "is_eulerian", "pagerank"}
# functions that give a network: name -> argument maker
NETS = {
    "complement": lambda r, ns: (), "create_empty_copy": lambda r, ns: (),
    "k_core": lambda r, ns: (), "ego_graph": lambda r, ns: (r.choice(ns),),
    "subgraph": lambda r, ns: (r.sample(ns, r.randint(0, len(ns))),),
    "induced_subgraph": lambda r, ns: (r.sample(ns, r.randint(0, len(ns))),),
    "restricted_view": lambda r, ns: (r.sample(ns, r.randint(0, len(ns) // 2)), []),
    "relabel_nodes": lambda r, ns: ({n: "r%d" % i for i, n in enumerate(ns)},),
    "power": lambda r, ns: (2,), "to_undirected": lambda r, ns: (),
}
NETS = {k: v for k, v in NETS.items() if hasattr(NX, k)}
TWO = ["compose", "union", "cartesian_product", "tensor_product", "strong_product", "lexicographic_product"]
VALUES2 = ["is_isomorphic", "could_be_isomorphic", "fast_could_be_isomorphic", "faster_could_be_isomorphic"]
SAME = ["difference", "intersection", "symmetric_difference", "is_isomorphic"] + VALUES2
GML = [
    "graph [", "node [", "id 0", 'label "p"', "]", "node [", "id 1", 'label "q"', "]",
    "edge [", "source 0", "target 1", "weight 2", "]", "]"]
NODE2 = ["shortest_path_length", "dijkstra_path_length", "has_path", "maximum_flow_value", "minimum_cut_value",
         "bellman_ford_path_length", "astar_path_length"]
GENS = [("karate_club_graph", ()), ("davis_southern_women_graph", ()), ("florentine_families_graph", ()),
        ("hypercube_graph", (3,)), ("grid_graph", ([2, 3],)), ("grid_graph", ([2, 2, 2],)),
        ("path_graph", (5,)), ("complete_graph", (6,)), ("gnm_random_graph", (8, 10, 3)), ("gnp_random_graph", (8, .4, 5)),
        ("random_regular_graph", (3, 8, 2)), ("watts_strogatz_graph", (10, 4, .3, 7)), ("barabasi_albert_graph", (10, 2, 1)),
        ("balanced_tree", (2, 3)), ("cycle_graph", (7,)), ("empty_graph", (4,)), ("null_graph", ()),
        ("stochastic_block_model", ([3, 4], [[.8, .1], [.1, .8]], None, 4)), ("les_miserables_graph", ()),
        ("from_edgelist", ([(1, 2), (2, 3)],)), ("star_graph", (5,)), ("petersen_graph", ()), ("complete_bipartite_graph", (2, 3)),
        ("interval_graph", ([(1, 2), (2, 3), (5, 6)],))]


class Wrapped(core.Check):
    id = "C29"
    quick, thorough = 4000, 60000
    files = ["pymnet/nxwrap.py"]
    minima = {"networks_by_keyword": 2000, "zero_weights": 150, "other_missing_value": 450, "refused_networks": 150, "analysis": 9000, "networks": 3000, "view_reads": 2000, "view_writes": 5000, "tuple_names": 400, "selfloops": 300,
              "pair_functions": 2000, "generators": 800, "layers_of_multiplex": 300}
    rule = ("case: random undirected monoplex network (or intra-layer network of a multiplex network) with positive weights and an "
            "equal plain networkx graph; a random selection of networkx functions applied to both through pymnet.nx and plain "
            "networkx, results compared by value; functions that give networks compared by content; reads and writes through the "
            "view mirrored on the plain graph. Non-trivial: at least two links; distinct by network content and functions used")
    assumptions = ["weights are nonzero and noEdge is 0; networkx as installed (2.5) is the oracle"]

    def make(self, rng, cx):
        pm = self.pm
        tup = rng.random() < 0.15
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 12])
        loops = rng.random() < 0.12
        names = gen.nodes(rng, n, mixed=rng.random() < 0.2, sortable=False)
        if tup:
            names = [(x, rng.choice("ab")) for x in names]
            cx.count("tuple_names")
        kind = rng.choice(["unit", "int", "float", "pos"])
        mplex = not tup and rng.random() < 0.15
        if mplex:
            mp = pm.MultiplexNetwork(couplings=rng.choice(["categorical", "none"]), fullyInterconnected=rng.random() < 0.5)
            mp.add_layer("L")
            mp.add_layer("M")
            net = mp.A["L"]
            mp.A["M"].add_node("other")
            if mp.fullyInterconnected:
                names = list(names) + ["other"]
            cx.count("layers_of_multiplex")
        else:
            net = pm.MultilayerNetwork(aspects=0)
            if rng.random() < 0.25:
                net = pm.MultilayerNetwork(aspects=0, noEdge=rng.choice([None, -1, "no", float("inf")]))
                cx.count("other_missing_value")
        G = GRAPH()
        for x in gen.shuffled(rng, names):
            G.add_node(x)
        view = pm.nx.MonoplexGraphNetworkxView(net) if tup else None
        for x in gen.shuffled(rng, names):
            if tup:
                view.add_node(x)
            else:
                net.add_node(x)
        d = rng.choice([0.1, 0.25, 0.45, 0.8])
        L = [(a, b) for k, a in enumerate(names) for b in names[:k] if rng.random() < d]
        if loops:
            L += [(a, a) for a in names if rng.random() < 0.3]
            if any(a == b for a, b in L):
                cx.count("selfloops")
            else:
                loops = False
        rng.shuffle(L)
        for a, b in L:
            w = gen.weight(rng, kind)
            G.add_edge(a, b, weight=w)
            if tup:
                view.add_edge(a, b, weight=w)
            else:
                net[a, b] = w
        return net, G, names, loops, tup, kind

    def by_name(self, cx, rng, name, nets, rest=()):
        """Keyword arguments for the first parameters (the networks) and positional ones, at random."""
        try:
            ps = [q.name for q in inspect.signature(getattr(NX, name)).parameters.values()
                  if q.kind == q.POSITIONAL_OR_KEYWORD]
        except (TypeError, ValueError):
            ps = []
        n = len(nets) + len(rest)
        if rng.random() < 0.7 or len(ps) < n:
            return tuple(nets) + tuple(rest), {}
        k = rng.randrange(0, len(nets))   # networks from the k-th on are given by name, and what follows them
        cx.count("networks_by_keyword")
        allp = tuple(nets) + tuple(rest)
        return allp[:k], dict(zip(ps[k:n], allp[k:]))

    def both(self, cx, name, f, g):
        """Runs the plain function and the wrapped one; an exception must be the same kind of exception."""
        st = random.getstate(), numpy.random.get_state()
        try:
            a, ea = f(), None
            if hasattr(a, "__next__"):
                a = list(a)
        except Exception as e:
            a, ea = None, e
        random.setstate(st[0])
        numpy.random.set_state(st[1])
        cx.log(name)
        try:
            b, eb = g(), None
            if hasattr(b, "__next__"):
                b = list(b)
        except Exception as e:
            if ea is None:
                raise
            b, eb = None, e
        cx.true("nx-global", networkx.Graph is GRAPH, "networkx.Graph was not restored after %s" % name)
        if ea is not None:
            cx.eq("nx-exception:" + name, type(eb), type(ea), "exception of %s" % name)
            cx.count("same_exception")
            return None
        return a, b

    def net_result(self, cx, name, a, b):
        cx.true("nx-type:" + name, isinstance(b, (self.pm.MultilayerNetwork, GRAPH)), "%s gave %r" % (name, type(b)))
        ka, kb = graph_key(a), graph_key(b)
        cx.eq("nx-nodes:" + name, kb[0], ka[0], "nodes of %s" % name)
        cx.eq("nx-links:" + name, set(kb[1]), set(ka[1]), "links of %s" % name)
        cx.close("nx-weights:" + name, kb[1], ka[1], "weights of %s" % name)
        cx.count("networks")
        if isinstance(b, self.pm.MultilayerNetwork) and len(ka[0]) <= 40:
            self.usable(cx, name, b, ka[1])

    def usable(self, cx, name, net, links):
        """The names given by a network work as its indices, also when they are tuples."""
        deg = {n: sum(1 for e in links if n in e) for n in net}
        for n in net:
            for m in net[n]:
                cx.eq("nx-usable:" + name, net[n][m], net[m][n], "link %r, %r from both ends" % (n, m))
                cx.eq("nx-usable:" + name, (net[m].deg(), n in set(net[m])), (deg[m], True), "neighbor %r of %r as an index" % (m, n))
        for e in net.edges:
            cx.eq("nx-usable:" + name, (net[e[0]].deg(), net[e[1]].deg()), (deg[e[0]], deg[e[1]]), "ends of link %r as indices" % (e,))
        cx.count("usable")

    def case(self, rng, cx, i):
        pm, nx = self.pm, self.pm.nx
        net, G, names, loops, tup, kind = self.make(rng, cx)
        if i % 10 == 0:
            self.refused(rng, cx)
        used = []
        before = graph_key(net)
        cx.log("nodes", names, "links", sorted(map(repr, G.edges(data="weight"))))
        cx.eq("nx-mirror", before, graph_key(G), "network built")
        funs = sorted(LOOPY & set(ONE)) if loops else sorted(ONE)
        for name in rng.sample(funs, 4):
            fn, _, arg = name.partition(":")
            extra = (arg if not arg.isdigit() else int(arg),) if arg else ()
            kw = {}
            if fn in ("clustering", "average_clustering", "betweenness_centrality", "degree", "load_centrality") and rng.random() < 0.4:
                kw = {"weight": "weight"}
            if fn == "closeness_centrality" and rng.random() < 0.4:
                kw = {"distance": "weight"}
            byname = rng.random() < 0.2 and fn not in ("nodes", "edges", "degree", "is_empty", "info")
            call = lambda lib, g: getattr(lib, fn)(g, *extra, **kw)
            if byname and not extra:
                call = lambda lib, g: getattr(lib, fn)(G=g, **kw)
            r = self.both(cx, name, lambda: call(NX, G), lambda: call(nx, net))
            used.append(name)
            cx.count("analysis")
            if r is not None:
                n = ONE[name]
                try:
                    a = n(r[0])
                except TypeError:
                    a = dct(r[0])
                b = n(r[1]) if n is not dct else dct(dict(r[1]) if isinstance(r[1], list) else r[1])
                if n is dct and isinstance(r[0], list):
                    a = dct(dict(r[0]))
                if isinstance(a, dict):
                    cx.close("nx-value:" + fn, b, a, "%s" % name, 1e-6)
                elif isinstance(a, float):
                    cx.close("nx-value:" + fn, b, a, "%s" % name, 1e-6)
                else:
                    cx.eq("nx-value:" + fn, b, a, "%s" % name)
        if len(names) >= 2 and not loops:
            for name in rng.sample(NODE2, 2):
                u, v = rng.sample(names, 2)
                kw = {"capacity": "weight"} if name in ("maximum_flow_value", "minimum_cut_value") else (
                    {"weight": "weight"} if name in ("shortest_path_length", "astar_path_length") and rng.random() < .5 else {})
                f = lambda lib, g: getattr(lib, name)(g, u, v, **kw)
                if name in ("shortest_path_length", "has_path", "dijkstra_path_length") and rng.random() < 0.3:
                    f = lambda lib, g: getattr(lib, name)(g, source=u, target=v, **kw)
                r = self.both(cx, name, lambda: f(NX, G), lambda: f(nx, net))
                cx.count("pair_functions")
                if r:
                    cx.close("nx-value:" + name, r[1], r[0], "%s(%r,%r)" % (name, u, v), 1e-6)
            for name in rng.sample(["shortest_path", "dijkstra_path"], 1):
                u, v = rng.sample(names, 2)
                r = self.both(cx, name, lambda: getattr(NX, name)(G, u, v), lambda: getattr(nx, name)(net, u, v))
                if r:
                    p = r[1]
                    cx.eq("nx-path-ends", (p[0], p[-1]), (u, v), name)
                    cx.true("nx-path-valid", all(G.has_edge(a, b) for a, b in zip(p, p[1:])), "%s gave %r" % (name, p))
                    w = lambda q: sum(G[a][b]["weight"] if name == "dijkstra_path" else 1 for a, b in zip(q, q[1:]))
                    cx.close("nx-path-length", w(p), w(r[0]), name)
        # spanning trees
        if rng.random() < 0.5 and not loops:
            name = rng.choice(["minimum_spanning_tree", "maximum_spanning_tree"])
            r = self.both(cx, name, lambda: getattr(NX, name)(G), lambda: getattr(nx, name)(net))
            if r:
                T = r[1]
                cx.true("nx-type:" + name, isinstance(T, pm.MultilayerNetwork), "spanning tree is %r" % type(T))
                t, L = graph_key(T), graph_key(G)[1]
                cx.eq("nx-mst-nodes", t[0], set(G))
                cx.true("nx-mst-subset", all(k in L and L[k] == w for k, w in t[1].items()), "tree links are not links of the network")
                cx.eq("nx-mst-size", len(t[1]), len(G) - NX.number_connected_components(G))
                cx.close("nx-mst-weight", sum(t[1].values()), sum(graph_key(r[0])[1].values()), "total weight")
                H = GRAPH(list(map(tuple, t[1])))
                cx.true("nx-mst-forest", not t[1] or NX.is_forest(H))
                cx.count("networks")
        for name in rng.sample(sorted(NETS), 2):
            if loops and name in ("complement", "k_core", "k_truss", "power"):
                continue
            args = NETS[name](rng, names)
            st = rng.getstate()
            pa, pk = self.by_name(cx, rng, name, [G], args)
            rng.setstate(st)
            wa, wk = self.by_name(cx, rng, name, [net], args)
            r = self.both(cx, name, lambda: getattr(NX, name)(*pa, **pk), lambda: getattr(nx, name)(*wa, **wk))
            used.append(name)
            if r:
                cx.true("nx-type:" + name, name == "to_undirected" or isinstance(r[1], pm.MultilayerNetwork),
                        "%s gave %r" % (name, type(r[1])))
                self.net_result(cx, name, r[0], r[1])
                if len(r[1]) and not tup:
                    k = nx.number_connected_components(r[1])
                    cx.eq("nx-chain:" + name, k, NX.number_connected_components(r[0]), "components of the result of " + name)
        if rng.random() < 0.3:
            self.two(rng, cx, net, G, names, tup)
        cx.eq("nx-pure", graph_key(net), before, "network changed by analysis functions: %r" % used)
        if rng.random() < 0.25:
            name, args = rng.choice(GENS)
            r = self.both(cx, name, lambda: getattr(NX, name)(*args), lambda: getattr(nx, name)(*args))
            cx.count("generators")
            if r:
                if name in ("karate_club_graph", "davis_southern_women_graph", "florentine_families_graph", "grid_graph"):
                    cx.true("nx-type:" + name, isinstance(r[1], pm.MultilayerNetwork), "%s gave %r" % (name, type(r[1])))
                self.net_result(cx, name, r[0], r[1])
        self.view(rng, cx, net, G, names, tup, kind, used)
        if len(before[1]) >= 2:
            cx.key(sorted(map(repr, names)), sorted(map(repr, before[1].items())), used)
        cx.sample({"nodes": repr(names), "links": len(before[1]), "functions": used})

    def two(self, rng, cx, net, G, names, tup):
        pm, nx = self.pm, self.pm.nx
        name = rng.choice(TWO + SAME)
        other, H = pm.MultilayerNetwork(aspects=0), GRAPH()
        if name in SAME:
            onames = names
        elif name == "compose":
            onames = names[: len(names) // 2] + ["u1", "u2"]
        else:
            onames = ["u1", "u2", "u3"]
        if tup:
            onames = [x for x in onames if not isinstance(x, tuple)] if name not in SAME else []
            if name in SAME:
                return
        for x in onames:
            other.add_node(x)
            H.add_node(x)
        same = name in VALUES2 and rng.random() < 0.6
        m = dict(zip(names, gen.shuffled(rng, names)))
        for a, b in itertools.combinations(onames, 2):
            if (G.has_edge(m[a], m[b]) if same else rng.random() < 0.5):
                w = rng.choice([1, 2, 0.5])
                other[a, b] = w
                H.add_edge(a, b, weight=w)
        if "product" in name and len(names) > 6:
            return
        st = rng.getstate()
        pa, pk = self.by_name(cx, rng, name, [G, H])
        rng.setstate(st)
        wa, wk = self.by_name(cx, rng, name, [net, other])
        r = self.both(cx, name, lambda: getattr(NX, name)(*pa, **pk), lambda: getattr(nx, name)(*wa, **wk))
        if r and name in VALUES2:
            cx.eq("nx-value:" + name, r[1], r[0], name)
        elif r and "product" in name:
            # attributes of product links are not weights
            cx.eq("nx-nodes:" + name, set(r[1]), set(r[0]))
            if name == "cartesian_product":
                self.net_result(cx, name, r[0], r[1])
            else:
                cx.count("networks")
        elif r:
            self.net_result(cx, name, r[0], r[1])

    def refused(self, rng, cx):
        """Directed networks and networks with aspects have no undirected networkx graph."""
        aspects = rng.choice([0, 1, 1, 2])
        ref = (gen.general(rng, aspects=aspects, directed=aspects == 0 or rng.random() < 0.5, noEdge=0) if rng.random() < 0.6 or not aspects
               else gen.multiplex(rng, aspects=aspects))
        net = model.build(self.pm, ref)
        before = model.structure(net)
        name = rng.choice(["number_of_nodes", "number_of_edges", "density", "is_connected", "degree", "connected_components", "clustering",
                           "adjacency_matrix", "to_dict_of_dicts", "get_edge_attributes", "minimum_spanning_tree", "complement", "is_directed"])
        f = getattr(self.pm.nx, name)
        cx.log("refused", name, gen.describe(ref))
        if rng.random() < 0.5:
            call = lambda: f(net)
        else:
            call = lambda: f(G=net)
        cx.raises("nx-refused:" + name, Exception, lambda: [call(), None][1] if name != "connected_components" else list(call()))
        cx.eq("nx-refused-pure", model.structure(net), before, "network changed by a refused call")
        cx.true("nx-global", networkx.Graph is GRAPH, "networkx.Graph was not restored after a refused call")
        cx.count("refused_networks")

    def view(self, rng, cx, net, G, names, tup, kind, used):
        """Reads and writes through the view, mirrored on the plain graph."""
        pm = self.pm
        v = pm.nx.autowrap(net)
        pool = list(names) + ([("new%d" % k, "z") for k in range(3)] if tup else ["new1", "new2", "new3"])
        mplex = not tup and "other" in net
        for _ in range(rng.choice([3, 6, 12])):
            op = rng.choice(["add_edge", "add_edge_w", "add_edges_from", "add_node", "remove_edge", "net_write", "net_remove",
                             "add_weighted", "item", "add_path"])
            a, b = rng.choice(pool), rng.choice(pool)
            if a == b or (mplex and (str(a).startswith("new") or str(b).startswith("new"))):
                continue
            w = gen.weight(rng, kind)
            if net.noEdge != 0 and rng.random() < 0.25:
                w = rng.choice([0, 0.0, -2.5])              # ordinary weights when they do not mean a missing link
                cx.count("zero_weights")
            cx.log("view", op, a, b, w)
            used.append(op)
            if op == "add_edge":
                if G.has_edge(a, b):
                    continue            # keeps the weight in networkx
                v.add_edge(a, b)
                G.add_edge(a, b, weight=1)
            elif op == "add_edge_w":
                v.add_edge(a, b, weight=w)
                G.add_edge(a, b, weight=w)
            elif op == "add_edges_from":
                v.add_edges_from([(a, b, {"weight": w})])
                G.add_edges_from([(a, b, {"weight": w})])
            elif op == "add_weighted":
                v.add_weighted_edges_from([(a, b, w)])
                G.add_weighted_edges_from([(a, b, w)])
            elif op == "add_path":
                if G.has_edge(a, b):
                    continue
                pm.nx.add_path(net, [a, b])
                NX.add_path(G, [a, b], weight=1)
            elif op == "add_node":
                v.add_node(a)
                G.add_node(a)
            elif op == "remove_edge":
                if not G.has_edge(a, b):
                    continue
                v.remove_edge(a, b)
                G.remove_edge(a, b)
            elif op == "item":
                if not G.has_edge(a, b):
                    continue
                v[a][b]["weight"] = w
                G[a][b]["weight"] = w
            elif tup:
                continue
            elif op == "net_write":
                net[a, b] = w
                G.add_edge(a, b, weight=w)
            elif op == "net_remove":
                if a not in net or b not in net:
                    continue
                net[a, b] = net.noEdge
                if G.has_edge(a, b):
                    G.remove_edge(a, b)
            cx.count("view_writes")
        # reads
        cx.eq("view-network", graph_key(net), graph_key(G), "network behind the view")
        cx.eq("view-nodes", (set(v.nodes), len(v), v.number_of_nodes()), (set(G), len(G), len(G)))
        cx.eq("view-edges", ({frozenset(e) for e in v.edges}, v.number_of_edges()), ({frozenset(e) for e in G.edges}, G.number_of_edges()))
        cx.eq("view-size", v.size(), G.size())
        cx.close("view-wsize", v.size(weight="weight"), G.size(weight="weight"))
        cx.eq("view-data", sorted((sorted(map(repr, e[:2])), e[2]) for e in v.edges(data="weight")),
              sorted((sorted(map(repr, e[:2])), e[2]) for e in G.edges(data="weight")))
        for x in names[:6]:
            cx.eq("view-in", x in v, x in G)
            cx.eq("view-degree", v.degree(x), G.degree(x))
            cx.close("view-wdegree", v.degree(x, weight="weight"), G.degree(x, weight="weight"))
            cx.eq("view-neighbors", (set(v.neighbors(x)), set(v[x]), len(v[x])), (set(G.neighbors(x)), set(G[x]), len(G[x])))
            y = rng.choice(names)
            cx.eq("view-has", v.has_edge(x, y), G.has_edge(x, y))
            cx.eq("view-get", dict(v.get_edge_data(x, y) or {}), dict(G.get_edge_data(x, y) or {}))
        cx.true("view-missing", "no such" not in v and not v.has_edge("no such", names[0]) and not v.has_edge(names[0], "no such"))
        cx.raises("view-missing-key", KeyError, lambda: v["no such"])
        cx.raises("view-missing-link", KeyError, lambda: v[names[0]]["no such"])
        cx.raises("view-missing-attr", KeyError, lambda: v[names[0]][sorted(G[names[0]], key=repr)[0]]["color"] if len(G[names[0]]) else v["no such"])
        cx.raises("view-unhashable", TypeError, lambda: v._adj[[1]])
        cx.eq("view-pure", graph_key(net), graph_key(G), "network after reading")
        n = rng.choice(names)
        cx.raises("view-node-removal", Exception, rng.choice([v.remove_node, lambda x: v.remove_nodes_from([x])]), n)
        cx.eq("view-refusal", graph_key(net), graph_key(G), "network after a refused removal of node %r" % (n,))
        c = v.copy()
        ns, L = graph_key(G)                    # networks made by networkx use 0 for missing links
        cx.eq("view-copy", graph_key(c.net), (ns, {k: w for k, w in L.items() if w != 0}), "copy of the view")
        if len(names) >= 2 and not mplex:
            c.add_edge(names[0], names[1], weight=123)
            cx.eq("view-copy-separate", graph_key(net), graph_key(G), "network after writing to a copy of the view")
        cx.count("view_reads")


class Isolation(core.Check):
    id = "C30"
    quick, thorough = 4000, 60000
    files = ["pymnet/nxwrap.py"]
    minima = {"calls": 30000, "raised": 4000, "nested": 4000, "plain_calls": 8000, "late_generators": 1500, "graph_after_callback": 800, "raised_inside_nested": 800}
    rule = ("case: a random schedule of pymnet.nx calls, plain networkx calls, calls that raise (in networkx, in user callbacks, at "
            "generator creation), wrapped calls nested inside callbacks of wrapped or plain calls, and generators consumed after other "
            "calls; after every step the networkx module must be unmodified, plain functions must give plain graphs and arguments must "
            "be unchanged. Non-trivial: at least one raising and one nested step; distinct by schedule")
    assumptions = ["single thread: during a wrapped call the networkx module is modified by design"]

    def setup(self, pm):
        core.Check.setup(self, pm)
        self.reference = {k: v for k, v in vars(networkx).items() if not k.startswith("__")}

    def intact(self, cx, where):
        cx.true("nx-global", networkx.Graph is GRAPH, "networkx.Graph is %r after %s" % (networkx.Graph, where))
        now = vars(networkx)
        for k in ("Graph", "DiGraph", "MultiGraph", "path_graph", "is_connected", "karate_club_graph", "convert", "generators"):
            cx.true("nx-module", now[k] is self.reference[k], "networkx.%s changed after %s" % (k, where))

    def case(self, rng, cx, i):
        pm, nx = self.pm, self.pm.nx
        net = pm.MultilayerNetwork(aspects=0)
        names = list(range(rng.choice([3, 4, 6])))
        for n in names:
            net.add_node(n)
        for a, b in itertools.combinations(names, 2):
            if rng.random() < 0.6:
                net[a, b] = rng.choice([1, 2, 0.5])
        net[0, 1] = 1
        content = graph_key(net)
        plain = GRAPH([tuple(k) for k in content[1]])
        late = []

        class Boom(Exception):
            pass

        def inside(kind, depth):
            """Runs inside a wrapped call."""
            cx.count("nested")
            if kind == "boom":
                raise Boom()
            if kind == "call":
                cx.eq("nested-value", nx.number_of_nodes(net), len(names), "wrapped call inside a callback")
            elif kind == "net":
                g = nx.karate_club_graph()
                cx.true("nested-type", isinstance(g, pm.MultilayerNetwork), "wrapped generator inside a callback gave %r" % type(g))
            elif kind == "raise-caught":
                cx.count("raised_inside_nested")
                try:
                    nx.shortest_path(net, 0, "nope")
                except NX.NodeNotFound:
                    pass
            elif kind == "deep" and depth < 3:
                nx.dijkstra_path_length(net, 0, 1, weight=lambda a, b, d: inside(rng.choice(KINDS), depth + 1))
            return 1

        KINDS = ["call", "net", "raise-caught", "deep", "boom"]
        sched = []
        for _ in range(rng.choice([4, 8, 14])):
            op = rng.choice(["analysis", "network", "nodenotfound", "pointless", "notimpl", "typeerr", "nested", "nested", "boom", "plain", "plain-nested",
                             "generator", "generator-consume", "layout", "kwargs", "generator-raise", "assertion", "graph-after-callback"])
            sched.append(op)
            cx.log(op)
            cx.count("calls")
            if op == "analysis":
                cx.eq("value", nx.number_of_edges(net), len(content[1]))
            elif op == "network":
                g = rng.choice([nx.karate_club_graph, lambda: nx.minimum_spanning_tree(net), lambda: nx.grid_graph([2, 2])])()
                cx.true("network-type", isinstance(g, pm.MultilayerNetwork), "gave %r" % type(g))
            elif op == "nodenotfound":
                cx.count("raised")
                cx.raises("exception", NX.NodeNotFound, nx.shortest_path, net, 0, "nope")
            elif op == "pointless":
                cx.count("raised")
                cx.raises("exception", NX.NetworkXPointlessConcept, nx.is_connected, pm.MultilayerNetwork(aspects=0))
            elif op == "notimpl":
                cx.count("raised")
                cx.raises("exception", NX.NetworkXNotImplemented, nx.strongly_connected_components, net)
            elif op == "typeerr":
                cx.count("raised")
                cx.raises("exception", TypeError, nx.is_connected)
            elif op == "assertion":
                cx.count("raised")
                bad = rng.choice([pm.MultilayerNetwork(aspects=1), pm.MultilayerNetwork(aspects=0, directed=True), pm.MultiplexNetwork()])
                cx.raises("exception", AssertionError, nx.is_connected, bad)
            elif op == "generator-raise":
                cx.count("raised")
                cx.raises("exception", Exception, lambda: list(nx.all_simple_paths(net, 0, 999)))
            elif op in ("nested", "boom"):
                kind = rng.choice(KINDS) if op == "nested" else "boom"
                seen = []

                def w(a, b, d):
                    if not seen:
                        seen.append(1)
                        return inside(kind, 0)
                    return 1
                try:
                    nx.dijkstra_path_length(net, 0, 1, weight=w)
                except Boom:
                    cx.count("raised")
            elif op == "plain":
                g = rng.choice([lambda: NX.path_graph(3), NX.karate_club_graph, lambda: NX.minimum_spanning_tree(plain), lambda: plain.copy(),
                                lambda: plain.subgraph([0, 1]), lambda: NX.complement(plain), lambda: NX.Graph([(1, 2)])])()
                cx.true("plain-type", isinstance(g, GRAPH) and not isinstance(g, nx.MonoplexGraphNetworkxView), "plain networkx gave %r" % type(g))
                if not hasattr(g, "_graph"):
                    cx.true("plain-dict", type(g._adj) is dict, "plain graph is backed by %r" % type(g._adj))
                cx.count("plain_calls")
            elif op == "plain-nested":
                # a wrapped call inside a callback of plain networkx
                def w2(a, b, d):
                    try:
                        return inside(rng.choice(KINDS), 0)
                    except Boom:
                        return 1
                NX.dijkstra_path_length(plain, 0, 1, weight=w2)
                cx.count("plain_calls")
            elif op == "generator":
                late.append(rng.choice([("cc", nx.connected_components(net)), ("edges", nx.bfs_edges(net, 0)), ("cliques", nx.find_cliques(net))]))
            elif op == "generator-consume" and late:
                kind, it = late.pop(rng.randrange(len(late)))
                l = list(it)
                cx.count("late_generators")
                if kind == "cc":
                    cx.eq("late-cc", sorted(map(sorted, l)), sorted(map(sorted, NX.connected_components(self.mirror(content)))))
                elif kind == "cliques":
                    cx.eq("late-cliques", sorted(map(sorted, l)), sorted(map(sorted, NX.find_cliques(self.mirror(content)))))
                else:
                    cx.eq("late-bfs", {0} | {b for _, b in l}, NX.node_connected_component(self.mirror(content), 0))
            elif op == "graph-after-callback":
                # the graph is made after the callbacks; the outer call alone decides of which kind it is
                kind = rng.choice(["call", "net", "raise-caught", "deep"])

                def read(text):
                    try:
                        inside(kind, 2)
                    except Boom:
                        pass
                    return text
                lib = rng.choice([nx, nx, NX])
                g = lib.parse_gml(GML, destringizer=read)
                cx.count("graph_after_callback")
                if lib is nx:
                    cx.true("callback-type", isinstance(g, pm.MultilayerNetwork), "wrapped parse_gml with a wrapped call (%s) in its callback gave %r" % (kind, type(g)))
                    cx.eq("callback-graph", graph_key(g), ({"p", "q"}, {frozenset(("p", "q")): 2}), "network read with a callback")
                else:
                    cx.true("callback-plain-type", type(g) is GRAPH and type(g._adj) is dict,
                            "plain parse_gml with a wrapped call (%s) in its callback gave %r" % (kind, type(g)))
            elif op == "layout":
                r = nx.circular_layout(net)
                cx.eq("layout", set(r), set(names))
            elif op == "kwargs":
                kw = {"G": net, "source": 0, "target": 1, "weight": None}
                keep = dict(kw)
                nx.shortest_path_length(**kw)
                cx.true("kwargs-untouched", all(kw[k] is keep[k] for k in keep) and len(kw) == len(keep), "keyword arguments changed")
            self.intact(cx, op)
            if rng.random() < 0.2:
                g = NX.path_graph(2)
                cx.true("plain-type", type(g) is GRAPH and type(g._adj) is dict, "plain networkx gave %r after %s" % (type(g), op))
                cx.count("plain_calls")
        for kind, it in late:
            list(it)
            self.intact(cx, "late generator")
            cx.count("late_generators")
        cx.eq("net-content", graph_key(net), content, "network after the schedule")
        if "boom" in sched and "nested" in sched:
            cx.key(sched, sorted(map(repr, content[1].items())))
        cx.sample({"schedule": sched})

    def mirror(self, content):
        g = GRAPH()
        g.add_nodes_from(content[0])
        for k, w in content[1].items():
            g.add_edge(*tuple(k), weight=w)
        return g
