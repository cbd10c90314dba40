RULES += [("Zhang's", "C20"), ("gcc_from_lcc", "C20")]
RULES += [("Erdos-Renyi", "C23"), ("conf ignored", "C24"), ("overlap and Barabasi", "C25")]
RULES += [("random_nodelists", "C23")]
RULES += [("Watts-Strogatz", "C25")]
RULES += [("read_ucinet", "C26")]
RULES += [("networkx was left", "C30"), ("networkx edge attributes", "C29"), ("webplot", "C27")]
RULES += [("to_dict_of_dicts", "C29"), ("networkx functions", "C29"), ("removing a node through networkx", "C29")]
RULES += [("fixed layers raised", "C31"), ("isomorphisms of monoplex", "C31")]
RULES += [("orbit counts removed", "C34"), ("subtrahends of orbit", "C35")]
RULES += [("colormaps in drawing", "C39"), ("default values were not used", "C39"), ("documented layer shape", "C39"), ("documented order rule", "C39"),
          ("drawings of directed", "C39"), ("directed networks could not be drawn", "C39"), ("normalizing", "C40"), ("Fruchterman", "C40"), ("three.js", "C40")]
RULES += [("ESU with a network copy", "C36")]
RULES += [("cycle counts of networks with", "C21"), ("autoscale did not fit", "C39")]

RULES += [("looking for a node", "C43"), ("overlay networks lost links between nodes whose names have no order", "C12"), ("shortest paths failed on networks whose names have no order", "C18"), ("refused links and nodes", "C44")]

RULES += [("Erdos-Renyi networks with link probabilities below", "C23"), ("configuration models failed when names of nodes have no order", "C24")]

RULES += [("Dijkstra took a step for every shortest path", "C18"), ("pruned Dijkstra forests", "C19")]
