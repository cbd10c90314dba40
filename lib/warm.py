"""Networks are also used while they are being built: readers of each monitored part, called on unfinished networks.

A result remembered for a network that changes afterwards shows up in the comparisons of the finished network.
"""
import io, itertools, random

READERS = []      # functions of (pm, network, reference) of the running check
RNG = None        # random numbers of the running case
USED = [0]        # networks that were used while being built
SHARE = 0.25


def basic(pm, net, ref):
    e = list(net.edges)
    for nl in list(net.iter_node_layers())[:6]:
        v = net[nl if ref.aspects else nl[0]]
        v.deg(), v.str(), list(v), len(v)
    list(net.iter_layers()), len(net.edges), len(net), hash(net)


def equal(pm, net, ref):
    net == net, net != net


def cc_walks(pm, net, ref):
    cc = pm.cc
    for nl in list(net.iter_node_layers())[:3]:
        cc.lcc_aw(net, nl[0], nl[1])
        cc.elementary_cycles(net, nl[0], nl[1])
        cc.sncc_aw(net, nl[0])
    cc.gcc_aw(net), cc.avg_lcc_aw(net), cc.cc_aw_vector(net), cc.gcc_moreno2_seplayers(net)
    cc.gcc_contraction_m(net), cc.gcc_contraction_o(net), cc.gcc_super_graph(net), cc.cc_cycle_vector_bf(net, *list(net.iter_node_layers())[0])


def cc_mono(pm, net, ref):
    cc = pm.cc
    for n in sorted(net, key=repr)[:4]:
        for f in (cc.lcc, cc.cc_zhang, cc.cc_onnela, cc.cc_barrat):
            f(net, n)
    cc.gcc_zhang(net)


def cc_multi(pm, net, ref):
    cc = pm.cc
    a = pm.aggregate(net, 1)
    for n in sorted(net, key=repr)[:3]:
        for f in (cc.cc_barrett, cc.cc_barrett_optimized, cc.cc_barrett_explicit, cc.lcc_brodka, cc.lcc_criado, cc.lcc_battiston1, cc.lcc_battiston2, cc.cc_layers_avg):
            for args in ((net, n), (net, n, a)):
                try:
                    f(*args)
                except Exception:
                    pass


def dijkstra(pm, net, ref):
    if all(isinstance(w, (int, float)) and w > 0 for w in ref.links().values()):
        nls = list(net.iter_node_layers())[:2]
        pm.diagnostics.dijkstra(net, nls)
        if ref.aspects:
            pm.diagnostics.dijkstra_mlayer_prune(net, nls, [1])


def esu(pm, net, ref):
    out = []
    state = random.getstate()
    pm.sampling.esu.sample_multilayer_subgraphs_esu(net, out, nnodes=2, nlayers=1)
    pm.sampling.dumb.dumb_enumeration(net, out, nnodes=2, nlayers=1)
    random.setstate(state)


def reqs(pm, net, ref):
    n, l = sorted(net, key=repr)[:2], sorted(net.slices[1], key=repr)[:2]
    pm.sampling.reqs.relaxed_check_reqs(net, n, l)
    pm.sampling.reqs.default_check_reqs(net, n, l, [1, 1], [0])


def nx(pm, net, ref):
    import networkx
    for f in ("degree_centrality", "clustering", "connected_components", "density", "degree"):
        r = getattr(pm.nx, f)(net)
        list(r) if hasattr(r, "__iter__") else r
    v = pm.nx.MonoplexGraphNetworkxView(net)
    networkx.to_dict_of_dicts(v), v.number_of_edges(), list(v.edges(data=True)), v.size(weight="weight")


def edge_files(pm, net, ref):
    for f in (pm.netio.write_edge_list,):
        try:
            f(net, io.StringIO())
        except Exception:
            pass


def invariants(pm, net, ref):
    for al in ([0], list(range(ref.aspects + 1))):
        pm.get_complete_invariant(net, allowed_aspects=al)
        pm.get_automorphism_generators(net, allowed_aspects=al)


def underlying(pm, net, ref):
    pm.transforms.get_underlying_graph(net)
    if ref.aspects == 1 and ref.couplings is not None:
        state = random.getstate()
        pm.transforms.randomize_nodes_by_layer(net)
        random.setstate(state)


def degree_stats(pm, net, ref):
    D = pm.diagnostics
    D.degs(net), D.degs(net, degstype="nodes"), D.density(net)
    if ref.couplings is not None:
        D.multiplex_degs(net), D.multiplex_density(net), D.overlap_degs(net)


MODULARITY = lambda pm, net, ref: pm.net.ModularityMultilayerNetworkView(net)
BY = {
    "C09": [lambda pm, net, ref: net.get_supra_adjacency_matrix(), lambda pm, net, ref: pm.supra_adjacency_matrix(net, includeCouplings=False)],
    "C08": [equal],
    "C10": [lambda pm, net, ref: pm.subnet(net, list(net)[:2], *[list(s) for s in net.slices[1:]]), lambda pm, net, ref: pm.subnet(net, None, *[None] * ref.aspects)],
    "C11": [lambda pm, net, ref: [pm.aggregate(net, a) for a in range(1, ref.aspects + 1)]],
    "C12": [lambda pm, net, ref: pm.transforms.overlay_network(net)],
    "C13": [lambda pm, net, ref: pm.transforms.relabel(net), lambda pm, net, ref: pm.transforms.normalize(net)],
    "C14": [lambda pm, net, ref: pm.transforms.threshold(net, 1)],
    "C15": [lambda pm, net, ref: list(itertools.islice(pm.transforms.subnet_iter(net, remove_elayers=[0]), 3))],
    "C16": [underlying],
    "C17": [degree_stats],
    "C18": [dijkstra],
    "C19": [dijkstra],
    "C20": [cc_mono],
    "C21": [cc_walks],
    "C22": [cc_multi],
    "C27": [lambda pm, net, ref: pm.netio.write_json(net)],
    "C28": [edge_files],
    "C29": [nx],
    "C30": [nx],
    "C31": [lambda pm, net, ref: pm.is_isomorphic(net, net), lambda pm, net, ref: pm.get_isomorphism(net, net), invariants],
    "C32": [invariants],
    "C33": [invariants],
    "C34": [invariants, lambda pm, net, ref: pm.graphlets.orbit_counts_all(net, 2)],
    "C36": [esu],
    "C37": [esu],
    "C38": [reqs],
    "C45": [MODULARITY],
}


def start(pid, rng):
    global RNG
    READERS[:] = BY.get(pid, []) + [basic]
    RNG = rng


def use(pm, net, ref):
    for f in RNG.sample(READERS, len(READERS)):  # a result may be remembered for the last call only
        try:
            f(pm, net, ref)
        except Exception:
            pass  # unfinished networks may be outside of the domain of the function

