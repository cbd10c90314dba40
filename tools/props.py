"""Source of /verif/properties.jsonl and the checks of /verif/MANIFEST.json (run: python3 tools/props.py)."""
import json, os

P = []
SAMPLE = "The unit tests fix a handful of small hand-written networks; "


def p(pid, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note))


RM = "runtime monitoring: "
NET = ["pymnet/net.py"]
TR = ["pymnet/transforms.py"]
DIAG = ["pymnet/diagnostics.py"]

p("C01", "A link reads back as the value last written to it, in every notation",
  "In a general multilayer network, reading a link always gives the value last assigned to it, and the 'no link' value if it was "
  "never assigned or was assigned 'no link' last, whichever of the equivalent index notations writes and reads it. In undirected networks both "
  "orientations are one link, in directed networks they are independent. No operation changes a link it does not address.",
  ["histories", "inputs"], "all histories of assignments, removals and node/layer additions; 0-3 aspects, directed or not, fully interconnected or not, any 'no link' object",
  SAMPLE + "histories with overwrites, removals and mixed notations are not explored", NET,
  [("link tables of MultilayerNetwork", "pymnet/net.py: MultilayerNetwork._set_link/_get_link"), ("index notations", "pymnet/net.py: __getitem__/__setitem__, _short_link_to_link")],
  ["net[...]"], RM + "lock-step dictionary reference model over random operation histories",
  "Held on the random histories executed (logged counts of writes, removals and reads per notation); says nothing about histories not driven.")

p("C02", "Degrees, strengths and neighbours agree with the links",
  "For every node-layer, the neighbours iterated, the (in-, out-, total) degree and the (in-, out-, total) strength are exactly those implied by "
  "the existing links, each neighbour once, after any history of link assignments, overwrites and removals.",
  ["histories", "inputs"], "all histories on general multilayer networks, all node-layers, all three degree kinds",
  SAMPLE + "degree tables kept incrementally can drift only after particular overwrite/removal sequences", NET,
  [("incremental total degree", "pymnet/net.py: MultilayerNetwork._set_link"), ("neighbour iteration", "pymnet/net.py: MultilayerNode")],
  ["net[...].deg()", "net[...].str()", "iteration"], RM + "reference-model oracle at quiescent points of random histories",
  "Held on the executed histories; strengths compared with tolerance for floats.")

p("C03", "The edge iterator lists each existing edge exactly once, with its weight",
  "Iterating the edges of a network gives every existing link, including coupling links, exactly once (once per unordered pair when undirected) "
  "with its weight, nothing else, and the reported number of edges is the number of edges iterated.",
  ["histories", "inputs"], "all general and multiplex networks reachable by any history",
  SAMPLE + "exactly-once over self-links, several aspects and couplings is a quantified statement", NET,
  [("edge iteration", "pymnet/net.py: Edges, _iter_edges of the network classes")], ["net.edges", "len(net.edges)"],
  RM + "exactly-once monitor over the iterated edges against a reference edge set", "Held on the executed histories.")

p("C04", "Node, layer and node-layer bookkeeping is exact",
  "After any history, the nodes, layers of each aspect, node-layers, layers of a node and nodes of a layer reported are exactly those added explicitly "
  "or implied by link assignments (every combination if fully interconnected), each once, and membership and length queries agree with them. Adding an existing node or layer changes nothing.",
  ["histories", "inputs"], "all histories of node, node-layer and layer additions and link assignments; general and multiplex networks",
  SAMPLE + "the implied additions interact with full interconnection and aspects", NET,
  [("slices and node-layer sets", "pymnet/net.py: add_node/add_layer/iter_node_layers/iter_nodes/iter_layers")], ["iterators, len, in"],
  RM + "lock-step set model over random histories", "Held on the executed histories.")

p("C05", "Slices select exactly the matching links",
  "A node-layer index with free and fixed entries selects exactly the links from that node-layer to the node-layers matching the fixed entries, for iteration, degree, strength and membership alike. A wrong number of indices raises KeyError.",
  ["inputs"], "all networks, node-layers and combinations of free and fixed entries", SAMPLE + "few of the exponentially many slice patterns are used",
  NET, [("slices", "pymnet/net.py: MultilayerNode.__init__, _iter_dim/_get_dim_degree")], ["net[i,j|:,s,r|:]", "deg/str/iteration"],
  RM + "reference-model oracle over random slice expressions", "Held on the executed slices. One known finding (foreign fixed entries on multiplex networks) is probed separately.")

p("C06", "Coupling links of multiplex networks follow the declared coupling rules",
  "In a multiplex network a node is linked to its own copies exactly as the declared coupling of each aspect says (all pairs of layers, consecutive layers, none, or the links of a given network; with the declared strength), "
  "among node-layers that exist and differ in one aspect only, and intra-layer links are those assigned. Attempts to assign inter-layer links or self-links are rejected and change nothing, and couplings of unknown kinds are refused.",
  ["histories", "inputs", "configurations"], "all coupling configurations of 1-3 aspects, directed or not, fully interconnected or not, all histories",
  SAMPLE + "non-fully-interconnected, several-aspect and network couplings are barely sampled", NET,
  [("lazy couplings", "pymnet/net.py: MultiplexNetwork._get_link/_iter_couplings/_get_edge_inter_aspects")], ["links, degrees, strengths, neighbours"],
  RM + "executable coupling-rule model checked at quiescent points of histories", "Held on the executed histories.")

p("C07", "Per-layer networks and the multiplex network are two views of the same data",
  "Writing a link or adding a node through an intra-layer network is visible through the multiplex network and conversely, at every moment. Replacing a layer's network makes that layer's links and nodes those of the new network and leaves the other layers alone.",
  ["histories"], "all interleavings of writes through both views and layer replacements", SAMPLE + "aliasing shows only under interleaved writes through both views",
  NET, [("intra-layer networks", "pymnet/net.py: MultiplexNetwork.A, IntraNet dictionaries")], ["net.A[layer][i,j]", "net[i,j,s]"],
  RM + "dual-view consistency monitor over random histories", "Held on the executed histories.")

p("C08", "Network equality is content equality; copies are equal and independent",
  "Two networks are equal exactly when they have the same class, directedness, node alignment (fully interconnected or not), value for missing links, aspects, nodes, layers, node-layers and links (and couplings), independently of how they were built; equality is symmetric and equal networks have equal hashes. Pickled and deep-copied networks equal the original and share nothing with it.",
  ["histories", "inputs"], "all pairs of construction histories and all single content changes", SAMPLE + "a missed ingredient shows only for pairs differing in just that",
  NET, [("equality", "pymnet/net.py: __eq__/__hash__/__getstate__")], ["==, !=, hash, pickle, copy"],
  RM + "metamorphic oracle: same content by different histories, single-difference mutants, copy isolation", "Held on the executed pairs.")

p("C09", "Supra-adjacency matrices hold exactly the links",
  "Each entry of the supra-adjacency matrix is the link between the node-layers named for its row and column (zero when there is none), every node-layer has exactly one row, and excluding inter-layer links zeroes exactly those between different layers.",
  ["inputs"], "all networks with numeric 'no link' 0, with and without couplings", SAMPLE + "entry/label agreement is for all pairs and aspects",
  NET, [("supra adjacency", "pymnet/net.py: get_supra_adjacency_matrix")], ["matrix and node-layer list"],
  RM + "entry-by-entry reference oracle", "Held on the executed networks.")

p("C10", "A subnetwork is the induced part, and is independent of the original",
  "Taking a subnetwork with selected nodes and layers gives exactly the selected existing nodes, layers and node-layers and all links between them with their weights, of the same kind of network or into a given one. Neither network changes when the other is modified.",
  ["inputs"], "all networks and selections, given target networks", SAMPLE + "fast paths depend on sizes and kinds of networks", TR + NET,
  [("subnet", "pymnet/transforms.py: subnet")], ["result and original"], RM + "reference-model oracle with isolation check", "Held on the executed selections.")

p("C11", "Aggregation sums the links that fall together and loses nothing",
  "Aggregating aspects gives a network over the remaining aspects with all nodes and remaining layers, whose every link weight is the sum of the weights of the original links projected onto it, optionally without self-links. Aggregating aspects one by one in any order equals aggregating them at once.",
  ["inputs"], "all networks with 1-3 aspects and every aspect selection", SAMPLE + "sums over self-links, directed links and several aspects are not sampled", TR,
  [("aggregate", "pymnet/transforms.py: aggregate")], ["result"], RM + "reference sums and commutation metamorphic check", "Held on the executed networks.")

p("C12", "The overlay network sums the intra-layer links of each node pair",
  "The overlay network has every node of the original and, between every two nodes, the sum of the weights of their links inside the layers; inter-layer links do not contribute and directedness is kept.",
  ["inputs"], "all one-aspect networks", SAMPLE + "only one small example exists", TR, [("overlay_network", "pymnet/transforms.py: overlay_network")], ["result"],
  RM + "reference sums", "Held on the executed networks.")

p("C13", "Relabeling and normalizing change names only",
  "Renaming nodes and layers by one-to-one maps gives a network with exactly the renamed nodes, layers, node-layers and links, of the same kind, and leaves the original and the maps unchanged. Normalizing renames them by order preserving maps to consecutive integers and returns maps that describe what was done.",
  ["inputs"], "all networks and injective (partial, permuting) maps", SAMPLE + "swapping and partial maps are not sampled", TR,
  [("relabel", "pymnet/transforms.py: relabel/normalize")], ["result, returned maps"], RM + "reference renaming plus round trips", "Held on the executed maps.")

p("C14", "Thresholding keeps exactly the links that pass",
  "Thresholding keeps all nodes, layers and node-layers and exactly the links whose weight passes the chosen comparison with the threshold, with unchanged weights.",
  ["inputs"], "all networks, thresholds and the four comparison rules", SAMPLE + "boundary weights and network kinds are not combined", TR,
  [("threshold", "pymnet/transforms.py: threshold")], ["result"], RM + "reference filter", "Held on the executed cases; multiplex networks with couplings are excluded where they cannot be thresholded.")

p("C15", "Subnetwork iteration enumerates every subnetwork once",
  "Iterating subnetworks yields every admissible combination of node and layer selections (and, on request, subsets of removable links) exactly once, each being that subnetwork, and leaves the original unchanged.",
  ["inputs"], "all small networks and parameters", SAMPLE + "the exactly-once statement is over an exponential family", TR,
  [("subnet_iter", "pymnet/transforms.py: subnet_iter")], ["iterated networks"], RM + "exactly-once multiset monitor against brute-force enumeration", "Held on small networks.")

p("C16", "Underlying graphs and node randomization preserve the structure",
  "The underlying graph has one node per node-layer and one equally weighted link per link. Randomizing nodes by layer keeps in every layer the same nodes and a network isomorphic to the original one, couplings included, every arrangement being equally likely, without touching the original.",
  ["inputs"], "all networks, all random outcomes", SAMPLE + "the randomized outcome is only sampled for one network", TR,
  [("make_underlying/randomize", "pymnet/transforms.py: get_underlying_graph, randomize_nodes_by_layer")], ["result"],
  RM + "link-by-link oracle and isomorphism search per layer", "Held on the executed networks and seeds.")

p("C17", "Degree distributions, densities and overlap degrees count what they say",
  "Degree listings and distributions, densities, per-layer densities and degrees and overlap degrees (numbers of links present in exactly a given combination of layers) equal the counts over the network's links, for every node and every layer combination.",
  ["inputs"], "all general and multiplex networks; overlap degrees for undirected one-aspect multiplex networks", SAMPLE + "counts over all layer combinations are not sampled", DIAG,
  [("diagnostics", "pymnet/diagnostics.py: degs, density, multiplex_density, multiplex_degs, overlap_degs")], ["returned dictionaries"],
  RM + "counting oracle", "Held on the executed networks.")

p("C18", "Dijkstra gives exact distances and all shortest-path links",
  "From any set of sources, the reported distance of every reachable node-layer is the minimum path weight, unreachable ones are not reported, and the returned forest contains exactly the links lying on shortest paths. Weights may be zero where zero is not the missing link, and the number of steps is bounded by a polynomial of the numbers of node-layers and links however many shortest paths there are.",
  ["inputs"], "all networks without negative weights, directed or not, and all source sets", SAMPLE + "ties and multiple sources are not sampled", DIAG,
  [("dijkstra", "pymnet/diagnostics.py: dijkstra")], ["distances and forest"], RM + "independent shortest-path oracle", "Held on the executed searches.")

p("C19", "Collapsed-dimension shortest paths are minima over the collapsed copies",
  "When sources and targets are node-layers with some dimensions collapsed, the distance of each remaining coordinate is the minimum over its node-layers and the pruned forest keeps exactly the links on shortest paths to the nearest ones, also with links of weight zero, very long paths and very many shortest paths.",
  ["inputs"], "all networks without negative weights with aspects, all collapsed dimensions", SAMPLE + "only one example exists", DIAG,
  [("dijkstra_mlayer_prune", "pymnet/diagnostics.py: dijkstra_mlayer_prune")], ["distances and pruned forest"], RM + "independent shortest-path oracle with minimum over copies", "Held on the executed searches.")

NA = []
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_more.py")).read())


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                                "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                                "anchors": {"files": q["files"],
                                            "mechanism": [{"name": a, "where": b} for a, b in q["mech"]],
                                            "observe_at": q["observe"], "hook_needed": None}}) + "\n")
    na = [{"property": a, "reason": b} for a, b in NA]
    skip = {a for a, _ in NA}
    man = {"version": 1, "setup_cmd": "true",
           "checks": [{"property": q["id"], "quick_cmd": "VERIF_TIER=quick bash run.sh %s" % q["id"],
                       "thorough_cmd": "VERIF_TIER=thorough bash run.sh %s" % q["id"],
                       "evidence_file": "evidence/%s.json" % q["id"], "technique": q["technique"],
                       "level": "exploration", "level_note": q["note"]} for q in P if q["id"] not in skip],
           "not_applicable": na,
           "notes": "No hooks in /repo: the monitors observe through the public API and sys.monitoring. "
                    "Generated by tools/props.py."}
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
