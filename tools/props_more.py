CC = ["pymnet/cc.py"]
p("C20", "Monoplex clustering coefficients equal their defining sums",
  "For every node of an undirected weighted or unweighted network with positive weights, the unweighted, Zhang, Onnela and Barrat clustering coefficients equal their documented formulas, and the object given for undefined values is returned exactly when the node has fewer than two neighbours. Global versions equal the ratio of summed terms, or nothing when undefined.",
  ["inputs"], "all undirected networks with positive weights and no self-links, all nodes", SAMPLE + "only unweighted triangles are checked", CC,
  [("local coefficients", "pymnet/cc.py: lcc, cc_zhang, cc_onnela, cc_barrat, gcc_zhang")], ["returned values"], RM + "formula oracle over random networks", "Held on the executed networks.")
p("C21", "Alternating-walk clustering counts exactly the closed alternating walks",
  "In unweighted categorically coupled multiplex networks, whatever value they use for missing links, the elementary cycle counts of a node-layer, node, layer or the whole network are the numbers of closed alternating walks of each kind, whichever implementation computes them. Local, averaged, supernode and global alternating-walk coefficients are the documented ratios of these counts.",
  ["inputs"], "all unweighted one-aspect categorically coupled multiplex networks, fully interconnected or not", SAMPLE + "agreement between implementations is only asserted on few networks", CC,
  [("cycle counting", "pymnet/cc.py: elementary_cycles, cc_cycle_vector_bf/anet/adj"), ("coefficients", "pymnet/cc.py: lcc_aw, avg_lcc_aw, sncc_aw, gcc_aw")], ["returned values"],
  RM + "independent walk-counting oracle, cross-implementation agreement", "Held on the executed networks.")
p("C22", "Other multiplex clustering coefficients equal their defining sums",
  "The multiplex clustering coefficients of Barrett, Brodka (for every threshold), Battiston (both) and Criado, the per-layer triangle and tuple counts, and the coefficients of the supernetwork and its contractions equal their defining sums over the links, in the optimized and the plain versions.",
  ["inputs"], "all one-aspect multiplex networks in the domain of each coefficient", SAMPLE + "mostly full networks are checked, where many different formulas agree", CC,
  [("coefficients", "pymnet/cc.py: cc_barrett*, lcc_brodka, lcc_battiston1/2, lcc_criado, cc_sequence, gcc_contraction_*, gcc_super_graph*")], ["returned values"],
  RM + "formula oracle over random networks", "Held on the executed networks; where documentation and tests disagree on normalization, the tests' normalization is used.")
MOD = ["pymnet/models.py"]
p("C23", "Erdos-Renyi type and full networks have exactly the promised links",
  "Random network generators with a link number give exactly that many links, with a link probability every possible link occurs independently with that probability (none at 0, all at 1), and full networks have all links. The result has all given nodes and layers, including those without links, no self- or repeated links, weight one (or random weights on request), and the requested couplings and interconnection.",
  ["inputs", "schedules"], "all parameter values and all random outcomes", SAMPLE + "random outcomes are checked for one parameter set", MOD + ["pymnet/sampling/creators.py"],
  [("generators", "pymnet/models.py: single_layer_er, er, er_partially_interconnected, full, full_multilayer, er_multilayer"), ("creators", "pymnet/sampling/creators.py")], ["produced network"],
  RM + "structural and frequency monitors over random calls", "Held on the executed calls; frequencies within 7 standard deviations.")
p("C24", "Configuration models realize exactly the prescribed degrees",
  "Networks made by configuration models are simple and have exactly the prescribed degree of every node (or degree distribution) in every layer, and exactly the prescribed overlap degrees for every combination of layers, with all nodes, layers and couplings requested.",
  ["inputs", "schedules"], "all sparse realizable degree sequences with 30 or more nodes whose names can be sorted, all random outcomes", SAMPLE + "rewiring of self- and multi-links happens only for some random outcomes", MOD,
  [("configuration models", "pymnet/models.py: single_layer_conf, conf, conf_overlaps, er_overlaps_match_aggregated")], ["produced network"],
  RM + "degree conservation monitor over random calls", "Held on the executed calls; small dense sequences, for which the documented algorithm need not terminate, are out of scope.")
p("C25", "Growing, small-world and geometric models give the promised structure",
  "In preferential-attachment multiplex networks every new node brings exactly its prescribed number of links to older nodes in each layer, chosen proportionally to total degree; small-world layers have exactly the prescribed and geometric layers about the prescribed number of links. All nodes and layers exist and no self- or repeated links occur.",
  ["inputs", "schedules"], "all parameters and random outcomes", SAMPLE + "random outcomes are barely checked", MOD,
  [("models", "pymnet/models.py: ba_total_degree, ws, geo")], ["produced network"], RM + "structural and frequency monitors over random calls", "Held on the executed calls.")
IO = ["pymnet/netio.py"]
p("C26", "UCINET DL full-matrix files are read into exactly the network they describe",
  "Reading a UCINET DL full-matrix file, from a file name, file object or any iterable of lines, gives exactly the nodes, layers and nonzero links with weights that the file describes, for every combination of labels, embedded labels, wrapped rows, several matrices and letter case of keywords. Files that are malformed or in unsupported formats are rejected, never half read.",
  ["inputs"], "all DL full-matrix files, well formed or malformed", SAMPLE + "a handful of files are read", IO,
  [("reader", "pymnet/netio.py: read_ucinet")], ["produced network", "raised errors"], RM + "independent DL writer and rejection monitor over random files", "Held on the executed files; labels in label lists are lower case and both directions of a link have the same weight.")
p("C27", "JSON and web output describes exactly the network",
  "The JSON written for a multiplex network, and the one embedded in the web page, is valid and contains exactly one entry per node, layer and link with the weights of the network, with indices that refer to the right names, for every label a user can choose; writing to a file gives the same as returning a string, and the network is unchanged.",
  ["inputs"], "all one-aspect multiplex networks, any labels", SAMPLE + "one network is written", IO + ["pymnet/visuals/webplots.py"],
  [("JSON", "pymnet/netio.py: write_json"), ("web page", "pymnet/visuals/webplots.py: webplot")], ["returned text", "written files"], RM + "decoding the output with an independent parser", "Held on the executed networks.")
p("C28", "Edge lists and edge files are written and read losslessly",
  "Edge files contain exactly one line per link, and reading them back, also from several files and as single-layer or multilayer edges, gives exactly the links and weights written, for every separator, header, numeric or symbolic naming, directed or not. Options that suppress weights, numbers or link types have only that effect.",
  ["inputs"], "all networks whose names contain no separator", SAMPLE + "single files are read", IO,
  [("edge files", "pymnet/netio.py: read_edge_file, read_edge_files, write_edge_files, write_edge_file")], ["written files", "produced network"], RM + "independent writer/reader and round trips over random networks", "Held on the executed networks.")
NX = ["pymnet/nxwrap.py"]
p("C29", "Networkx functions applied to pymnet networks give what networkx gives",
  "Calling a networkx function through pymnet's networkx module on an undirected single-layer network gives the same result as calling plain networkx on a graph with the same nodes, links and weights; functions returning graphs return networks with exactly the promised content, and functions that modify the graph modify the network accordingly or refuse without partial effects. Directed networks and networks with aspects are refused, positionally or by keyword, and left unchanged.",
  ["inputs"], "all undirected single-layer networks, weighted or not, and all wrapped functions", SAMPLE + "three networkx functions are called", NX,
  [("wrapper", "pymnet/nxwrap.py: MonoplexGraphNetworkxView, MonoplexGraphNetworkxNew, autowrap")], ["returned values", "network content"],
  RM + "plain networkx as the oracle over random networks and functions", "Held on the executed functions and networks.")
p("C30", "Using the networkx wrapper leaves networkx itself intact",
  "Calls through pymnet's networkx module, whether they succeed, fail, are nested in one another through callbacks or produce generators consumed later, leave the networkx package working with its own graph classes: its classes, functions and results are the same before and after.",
  ["inputs", "histories"], "all sequences of wrapped and plain networkx calls, also failing and nested ones", SAMPLE + "wrapped and plain networkx are not used together", NX,
  [("patching", "pymnet/nxwrap.py: networkxdecorator, autowrap")], ["module attributes", "returned values"],
  RM + "snapshot monitor of the networkx modules around random call sequences", "Held on the executed call sequences.")
ISO = ["pymnet/isomorphisms/isomcore.py", "pymnet/isomorphisms/nxbackend.py", "pymnet/isomorphisms/blissbackend.py"]
p("C31", "Isomorphism tests and mappings are exact",
  "For undirected networks and any set of permutable aspects, is_isomorphic is true exactly when some relabeling of those aspects (the others kept fixed) maps node-layers onto node-layers and links onto links, and get_isomorphism returns such a relabeling, or None when there is none. Networks with different layers or numbers of nodes are compared, not refused; the networks are not changed.",
  ["inputs"], "all undirected multilayer and multiplex networks, all sets of permutable aspects", SAMPLE + "a handful of pairs of networks is compared", ISO,
  [("reduction", "pymnet/isomorphisms/isomcore.py: AuxiliaryGraphBuilder, _compare_structure"), ("entry points", "pymnet/isomorphisms/__init__.py")], ["returned values"],
  RM + "brute-force search over all relabelings and checking of the returned mapping, over random network pairs", "Held on the executed pairs of small networks; the PyBliss backend runs on a stand-in for the PyBliss module.")
p("C32", "Complete invariants and automorphism groups are exact",
  "Complete invariants of two undirected networks are equal exactly when the networks are isomorphic in the given permutable aspects, whatever the order in which they were built, and automorphism generators are automorphisms that together generate the whole automorphism group.",
  ["inputs"], "all undirected networks, all sets of permutable aspects", SAMPLE + "these functions are not run without PyBliss", ISO,
  [("canonical form", "pymnet/isomorphisms/isomcore.py: complete_invariant, get_automorphism_generators")], ["returned values"],
  RM + "brute-force automorphism groups and isomorphism classes over random networks", "Held on the executed networks, with a stand-in for the PyBliss module.")
GR = ["pymnet/graphlets/graphlets.py"]
p("C33", "Graphlet lists are complete, without duplicates, and their orbits exact",
  "For any number of nodes, layers, layers per graphlet, couplings and permutable aspects, the graphlets generated contain exactly one network for every isomorphism class of connected multiplex networks, the returned invariants lead from any network to its graphlet, and the automorphism orbits of nodes and node-layers are exactly those of the automorphism group, consistently listed and numbered.",
  ["inputs"], "all numbers of nodes and layers, couplings and permutable aspects", SAMPLE + "graphlets are not run without PyBliss", GR,
  [("enumeration", "pymnet/graphlets/graphlets.py: graphlets, automorphism_orbits, automorphism_orbits_nl, list_orbits")], ["returned lists"],
  RM + "exhaustive bit-mask enumeration of all small multiplex networks as the oracle", "Held on the executed families (up to 5 nodes in one layer, 4 in two, 3 in four), with a stand-in for the PyBliss module.")
p("C34", "Orbit counts equal the numbers of connected induced subnetworks",
  "The orbit counts of a node are the numbers of connected sets of nodes around it whose induced subnetwork puts it into each orbit, whether computed for all nodes together or for one node; the network is not changed, networks with graphlets outside the list are refused, and graphlet correlation distances equal their formula.",
  ["inputs"], "all fully interconnected multiplex networks and graphlet lists", SAMPLE + "orbit counts are not run without PyBliss", ["pymnet/graphlets/graphlet_measures.py"],
  [("counting", "pymnet/graphlets/graphlet_measures.py: orbit_counts_all, orbit_counts, touching_orbit_nodes, GCD, GCD_matrix")], ["returned counts", "network content"],
  RM + "brute-force counting over canonical bit masks", "Held on the executed networks, with a stand-in for the PyBliss module.")
p("C35", "Orbit equations hold for every node of every network",
  "There is exactly one orbit equation for each pair of orbits that fit into the given number of nodes, and every equation, with its coefficients and subtrahends, holds for the orbit counts of every node of every network. The equations called independent are linearly independent and span all equations.",
  ["inputs"], "all graphlet families up to 4 nodes, all networks", SAMPLE + "orbit equations are not run without PyBliss", ["pymnet/graphlets/graphlets.py", "pymnet/graphlets/independent_equations.py"],
  [("equations", "pymnet/graphlets/graphlets.py: orbit_equations, subtrahend, coefficient"), ("independence", "pymnet/graphlets/independent_equations.py: independent_equations, redundant_orbits")], ["returned equations"],
  RM + "evaluation of every equation with brute-force orbit counts of random networks, and rank computation", "Held on the executed families and networks, with a stand-in for the PyBliss module.")
SA = ["pymnet/sampling/esu.py", "pymnet/sampling/dumb.py"]
p("C36", "Subgraph enumeration finds every acceptable subgraph exactly once",
  "Exhaustive enumeration by ESU, with or without copying the network, and by the naive algorithm reports every induced subgraph that meets the requirements (numbers of nodes and layers, sizes and intersections exact, partly free or bounded, or an own check function) exactly once, and no other, into a list or a callable. The network is not changed and incomplete or contradictory arguments are refused.",
  ["inputs"], "all undirected one-aspect networks, all combinations of requirements", SAMPLE + "a handful of networks is enumerated", SA,
  [("ESU", "pymnet/sampling/esu.py: sample_multilayer_subgraphs_esu, _extend_subgraph"), ("naive", "pymnet/sampling/dumb.py: dumb_enumeration")], ["reported subgraphs", "network content"],
  RM + "exactly-once checker against brute force over random networks and requirements", "Held on the executed networks of at most 10 nodes and 4 layers.")
p("C37", "Subgraph sampling is uniform with the promised probability",
  "With sampling probabilities p, each acceptable induced subgraph is reported with probability equal to the product of p, at most once, and nothing else is reported; a zero probability gives nothing, and the same seed gives the same sample.",
  ["inputs", "schedules"], "all networks, requirements, probabilities and seeds", SAMPLE + "probabilities are not checked per subgraph", SA[:1],
  [("sampling", "pymnet/sampling/esu.py: sample_multilayer_subgraphs_esu, _extend_subgraph")], ["reported subgraphs"],
  RM + "frequency monitor over many seeded runs", "Held on the executed networks; frequencies within 7 standard deviations.")
p("C38", "Subgraph acceptance tests agree with their definition",
  "An induced subgraph is accepted exactly when it is connected, has no empty node or layer and, for given sizes and intersections, some assignment of its layers to the roles satisfies all of them (exactly, or as upper bounds), whatever the order of the lists. Required numbers of nodes and layers follow from inclusion and exclusion, and inappropriate arguments are refused.",
  ["inputs"], "all undirected one-aspect networks, node and layer lists and requirements", SAMPLE + "a handful of subgraphs is tested", ["pymnet/sampling/reqs.py"],
  [("acceptance", "pymnet/sampling/reqs.py: default_check_reqs, relaxed_check_reqs, default_calculate_required_lengths")], ["returned values"],
  RM + "independent acceptance oracle over random subgraphs and near misses", "Held on the executed networks and requirements.")
VI = ["pymnet/visuals/drawcore.py", "pymnet/visuals/drawassigners.py", "pymnet/visuals/drawnet.py", "pymnet/visuals/drawbackends/mpl.py", "pymnet/visuals/drawbackends/threejs.py", "pymnet/visuals/layouts.py"]
p("C39", "Figures show exactly the network, with the requested properties",
  "A drawing of a one-aspect network has exactly one circle per visible node-layer, in the plane of its layer and at the given coordinates (scaled together) or at one position per node, one patch per visible layer in the requested order, one line along each link and the labels asked for. Sizes, colors, styles, widths and labels come from the property dictionaries first, then the rules, then the defaults. Layers are stacked from the bottom up, on each layer the links (larger z modifiers over smaller ones) under the nodes, also after rendering; an autoscaled view holds all layers; the figure is displayed only on request. Drawing changes neither the network nor the arguments.",
  ["inputs"], "all one-aspect networks and all combinations of property dictionaries, rules and defaults", SAMPLE + "figures are drawn without looking at their content", VI,
  [("properties", "pymnet/visuals/drawassigners.py: PropertyAssigner; pymnet/visuals/drawcore.py: draw; pymnet/visuals/drawnet.py: NetFigure"), ("artists", "pymnet/visuals/drawbackends/mpl.py")], ["artists of the figure", "arguments", "network content"],
  RM + "inspection of all Matplotlib artists against an independent evaluation of the arguments", "Held on the executed figures; artists, not pixels, are inspected.")
p("C40", "Layouts place every node once, finitely and inside the box",
  "Every layout gives exactly one finite coordinate for each node (or node-layer, when not aligned) of the network. Fruchterman-Reingold coordinates span exactly the bounding box and draw linked groups closer together than unlinked ones, for networks of any kind; networkx layouts are those of the aggregated network; normalization is linear onto the box; links of three.js figures end at the spheres of their nodes. Networks and arguments are not changed.",
  ["inputs"], "all networks, layouts, initial coordinates and bounding boxes", SAMPLE + "coordinates are not checked", VI[5:] + VI[4:5],
  [("layouts", "pymnet/visuals/layouts.py: get_layout, get_fruchterman_reingold_multilayer_layout, normalize_coordinates"), ("three.js", "pymnet/visuals/drawbackends/threejs.py")], ["returned coordinates", "generated page", "network content"],
  RM + "coordinate invariants, networkx as the oracle, and group-distance statistics over random networks", "Held on the executed networks and seeds.")
p("C41", "Copies of networks are equal, complete and independent",
  "A network of any kind that is pickled (any protocol) or deep copied gives a network of the same class that is equal to it and has exactly its nodes, layers, node-layers, links, weights, couplings and settings. Later changes to either one, also through the networks of single layers, never show in the other, and both keep working.",
  ["inputs", "histories"], "all networks of any kind, copies of copies, and all later changes", SAMPLE + "only a handful of networks is pickled, and copies are never changed", ["pymnet/net.py"],
  [("state of networks", "pymnet/net.py: MultilayerNetwork, MultiplexNetwork, MultiplexIntraNetDict, MultilayerNetworkWithParent")], ["network content", "content of copies"],
  RM + "comparison of original and copy with their own references after changes to either", "Held on the executed networks and changes.")

p("C42", "Functions that only look at networks change nothing, and equal networks give equal results",
  "Measures, transformations giving new networks, comparisons, isomorphism tests, enumerations, layouts, views and writers leave the network, their other arguments and, when they use no randomness, the state of the random number generator as they were. Calling them again, or on a network with the same content and directedness that was built in another order, with overwritten or removed links, or by copying, gives the same result. A network they return and the network it came from can be changed without showing in each other.",
  ["inputs", "histories"], "all networks of any kind and every function of the library that reads them", SAMPLE + "results are compared with fixed values on freshly built networks, and the inputs are not looked at afterwards", ["pymnet/transforms.py", "pymnet/diagnostics.py", "pymnet/cc.py", "pymnet/net.py", "pymnet/netio.py", "pymnet/sampling/reqs.py", "pymnet/isomorphisms/isomcore.py", "pymnet/visuals/layouts.py"],
  [("reading functions", "pymnet/transforms.py, pymnet/diagnostics.py, pymnet/cc.py, pymnet/isomorphisms, pymnet/sampling, pymnet/nxwrap.py: their public functions")], ["network content before and after", "arguments", "results"],
  RM + "comparison of content, arguments and generator state before and after each call, and of results between calls and between equal networks", "Held on the executed calls.")

p("C43", "Operations cost what the data structures promise",
  "Setting, reading, overwriting and removing links, adding nodes and layers, membership tests and degrees take the same number of steps and the same extra memory however many other nodes, links and layers the network has and however many neighbors the node has. Iterating over neighbors, nodes, node-layers and links takes time proportional to what is iterated over. Networks store entries for their nodes, layers and explicit links only, and inter-layer couplings of multiplex networks are never stored. Erdos-Renyi networks are created in time proportional to their node-layers and links.",
  ["inputs", "histories"], "all general and multiplex networks of any size", SAMPLE + "small networks do not show how costs grow, and no test measures them", ["pymnet/net.py", "pymnet/models.py"],
  [("data structures", "pymnet/net.py: MultilayerNetwork, MultiplexNetwork, MultiplexIntraNetDict; documented in doc/overview.rst, Computational efficiency"), ("er", "pymnet/models.py: er, single_layer_er")], ["executed lines and operations on names", "allocated memory", "stored entries"],
  RM + "counting of executed lines, hash and comparison operations and allocations of the same operations in networks of two sizes", "Held on the executed operations.")

p("C44", "Refused changes leave a network exactly as it was",
  "A change that cannot be made, i.e., a link with a wrong number of indices, a link between layers or a self-link of a multiplex network, a name that cannot be hashed, a node for a layer with a wrong number of elements, a layer for a missing aspect or an invalid network for a layer, raises an error and leaves the nodes, layers, node-layers and links of the network exactly as they were, through whichever interface it was tried. The network keeps working.",
  ["inputs", "histories"], "all networks of any kind and all invalid changes of these kinds", SAMPLE + "the few tests of errors do not look at the network afterwards", ["pymnet/net.py"],
  [("changes", "pymnet/net.py: __setitem__, add_node, add_layer, MultiplexIntraNetDict.__setitem__")], ["network content before and after", "errors"],
  RM + "comparison of the content before and after each refused change", "Held on the executed changes.")

p("C45", "The modularity view shows each link minus its expected weight",
  "In the modularity view of an undirected multilayer network with positive weights, the entry of two node-layers in the same layer is the weight of their link (0 if there is none) minus gamma times the product of their strengths within the layer divided by the sum of all strengths within that layer. Entries between layers are the inter-layer links and couplings themselves. All entries of a layer add up to (1-gamma) times its total strength. The network itself is left unchanged.",
  ["inputs"], "all undirected general and multiplex networks with one or two aspects, with positive weights, and all resolutions gamma; layers that have links", SAMPLE + "no test uses the view", ["pymnet/net.py"],
  [("view", "pymnet/net.py: ModularityMultilayerNetworkView")], ["entries of the view"],
  RM + "comparison of every entry, and of the sums of the layers, with the definition on the reference network", "Held on the executed networks.")
