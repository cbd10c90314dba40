"""Monitor of the documented costs: steps and memory of the real operations at two sizes of the network."""
import itertools, sys, tracemalloc
from lib import core
from lib.model import lay


class Label(object):
    """A name that counts how often it is hashed and compared."""
    ops = 0
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        Label.ops += 1
        return hash(self.name)

    def __eq__(self, other):
        Label.ops += 1
        return isinstance(other, Label) and self.name == other.name

    def __ne__(self, other):
        return not self.__eq__(other)

    def __lt__(self, other):
        Label.ops += 1
        return self.name < other.name

    def __gt__(self, other):
        Label.ops += 1
        return self.name > other.name

    def __repr__(self):
        return "<%s>" % (self.name,)


class Meter(object):
    """Counts the lines of pymnet executed and the operations on labels."""
    TOOL = 3

    def __init__(self):
        mon = sys.monitoring
        self.lines = 0
        if mon.get_tool(self.TOOL) is None:
            mon.use_tool_id(self.TOOL, "verif-cost")
        mon.register_callback(self.TOOL, mon.events.LINE, self._line)

    def _line(self, code, line):
        if not code.co_filename.startswith(core.REPO + "/pymnet"):
            return sys.monitoring.DISABLE
        self.lines += 1

    def steps(self, f):
        mon = sys.monitoring
        self.lines, Label.ops = 0, 0
        mon.set_events(self.TOOL, mon.events.LINE)
        try:
            f()
        finally:
            mon.set_events(self.TOOL, 0)
        return self.lines + Label.ops

    def peak(self, f):
        tracemalloc.start()
        try:
            tracemalloc.reset_peak()
            base = tracemalloc.get_traced_memory()[0]
            f()
            return tracemalloc.get_traced_memory()[1] - base
        finally:
            tracemalloc.stop()


def entries(net):
    """Number of containers and of their entries that a network holds."""
    seen, stack, n = set(), [net], 0
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, dict):
            n += 1 + len(x)
            stack.extend(x.values())
            stack.extend(k for k in x if isinstance(k, tuple))
        elif isinstance(x, (list, tuple, set, frozenset)):
            n += 1 + len(x)
            stack.extend(x)
        elif str(getattr(type(x), "__module__", "")).startswith("pymnet"):
            n += 1
            stack.append(vars(x))
    return n


class Cost(core.Check):
    id = "C43"
    quick, thorough = 400, 5000
    files = ["pymnet/net.py", "pymnet/models.py"]
    minima = {"constant": 3000, "constant_memory": 2000, "linear": 250, "storage": 200, "coupling_storage": 40, "models": 30, "sparse": 8, "multiplex": 80, "general": 80,
              "more_nodes": 60, "more_links": 60, "more_layers": 40, "more_neighbors": 60}
    rule = ("case: a random small core network is embedded into a small and into a several times larger network (more nodes, more links, more layers or more neighbors of one node), and each "
            "operation on the core is run on both while the executed lines of the library, the operations on the names of nodes and layers and the memory allocated are "
            "counted: operations documented to take constant time must not take more in the larger network, iterations at most as much more as there is more to "
            "iterate, and the number of stored entries must grow with nodes, layers and explicit links only. Non-trivial: all; distinct by kind of network, growth and core")
    assumptions = ["costs are counted in executed lines, operations on names and allocated bytes; work inside of the interpreter on existing numbers is not seen"]

    def case(self, rng, cx, i):
        if not hasattr(self, "meter"):
            self.meter = Meter()
        if i % 8 == 7:
            return self.models(rng, cx)
        pm = self.pm
        mp = rng.random() < 0.5
        asp = rng.choice([1, 1, 2]) if mp else rng.choice([0, 1, 1, 2])
        k = {"mp": mp, "aspects": asp, "directed": rng.random() < 0.4, "full": asp == 0 or rng.random() < 0.6,
             "couplings": [rng.choice(["categorical", "categorical", "ordinal", "none"]) for _ in range(asp)] if mp else None,
             "grow": rng.choice(["nodes", "links", "layers", "neighbors"] if asp else ["nodes", "links", "neighbors"]),
             "core": rng.randint(3, 6), "layers": [rng.randint(2, 3) for _ in range(asp)], "links": rng.random()}
        k["factor"] = rng.choice([4, 6])
        cx.log(k)
        cx.sample(k)
        cx.count("multiplex" if mp else "general")
        cx.count("more_" + k["grow"])
        seed = rng.random()
        import random
        nets = [self.build(pm, k, random.Random(seed), size) for size in (1, k["factor"])]
        stored = []
        for net, sizes in nets:
            n = entries(net)
            cx.count("storage")
            cx.true("storage", n <= 40 * (sizes["nodes"] + sizes["nodelayers"] * (not k["full"]) + sizes["combinations"] + sizes["links"]) + 200,
                    "%d entries are stored for %s" % (n, sizes))
            stored.append(n)
        if mp:
            for size, n in zip((1, k["factor"]), stored):
                other = dict(k, couplings=["none"] * asp)
                m = entries(self.build(pm, other, random.Random(seed), size)[0])
                cx.count("coupling_storage")
                cx.true("coupling-storage", n <= m + 10, "%d entries are stored with couplings %s and %d without" % (n, k["couplings"], m))
        for name, ops in self.operations(k, random.Random(seed)):
            costs, peaks = [], []
            for net, sizes in nets:
                costs.append(self.meter.steps(lambda: [op(net) for op in ops]))
            cx.count("constant", len(ops))
            cx.true("constant:" + name, costs[1] <= 1.3 * costs[0] + 25,
                    "%s took %d steps, and %d in a network with more %s: %s" % (name, costs[0], costs[1], k["grow"], [s for _, s in nets]))
            if name.startswith("read") or name.startswith("degree") or name.startswith("neighbors"):
                for net, sizes in nets:
                    peaks.append(self.meter.peak(lambda: [op(net) for op in ops]))
                cx.count("constant_memory", len(ops))
                cx.true("constant-memory:" + name, peaks[1] <= 1.5 * peaks[0] + 1500,
                        "%s used %d bytes, and %d in a network with more %s: %s" % (name, peaks[0], peaks[1], k["grow"], [s for _, s in nets]))
        for name, op, size in self.iterations(k):
            per = []
            for net, sizes in nets:
                per.append((self.meter.steps(lambda: op(net)), size(net, sizes)))
            cx.count("linear")
            (c0, s0), (c1, s1) = per
            more = max(b / float(a) for a, b in zip(s0, s1))
            cx.true("linear:" + name, c1 <= 1.3 * c0 * max(1.0, more) + 50,
                    "%s took %d steps for sizes %s and %d for sizes %s" % (name, c0, s0, c1, s1))
        cx.key(repr({a: b for a, b in k.items() if a != "links"}))

    def build(self, pm, k, rng, size):
        """The core is the same for both sizes."""
        asp, full = k["aspects"], k["full"]
        if k["mp"]:
            net = pm.MultiplexNetwork(couplings=[(c, 1.0) for c in k["couplings"]], directed=k["directed"], fullyInterconnected=full)
        else:
            net = pm.MultilayerNetwork(aspects=asp, directed=k["directed"], fullyInterconnected=full)
        name = lambda a, x: x if k["mp"] and k["couplings"][a] == "ordinal" else Label("layer%d-%d" % (a, x))
        k["names"] = [[name(a, x) for x in range(c)] for a, c in enumerate(k["layers"])]
        k["nodes"] = [Label("n%d" % x) for x in range(k["core"])]
        layers = list(itertools.product(*k["names"]))
        for a in range(asp):
            for l in k["names"][a]:
                net.add_layer(l, a + 1)
            if k["grow"] == "layers" and (asp == 1 or a == 0):
                for x in range(20 * size):
                    net.add_layer(name(a, 10 + x), a + 1)
        for n in k["nodes"]:
            net.add_node(n)
            for l in layers:
                if not full and rng.random() < 0.8:
                    net.add_node(n, layer=lay(l))
        k["have"] = []
        links = 0
        for a, b in itertools.combinations(k["nodes"], 2):
            for l in layers:
                if rng.random() < 0.5:
                    self.link(net, a, b, l, l, 1 + rng.randrange(5))
                    k["have"].append((a, b, l, l))
                    links += 1
        if not k["mp"] and asp:
            for _ in range(6):
                a, b = rng.choice(k["nodes"]), rng.choice(k["nodes"])
                l1, l2 = rng.choice(layers), rng.choice(layers)
                if (a, l1) != (b, l2):
                    self.link(net, a, b, l1, l2, 2)
                    k["have"].append((a, b, l1, l2))
                    links += 1
        busy = layers[:-1] or layers  # the last layer has nodes of the core only, if the network is not fully interconnected
        bg = [Label("bg%d" % x) for x in range(60 * size if k["grow"] == "nodes" else 40)]
        for x, n in enumerate(bg):
            net.add_node(n)
            if not full:
                net.add_node(n, layer=lay(busy[x % len(busy)]))
        for x in range(80 * size if k["grow"] == "links" else 30):
            a, b = rng.sample(bg, 2)
            l = layers[0] if x % 2 else rng.choice(busy)
            self.link(net, a, b, l, l, 3)
            links += 1
        if k["grow"] == "neighbors":  # one node of the core has many neighbors
            for x in range(25 * size):
                hub, n = k["nodes"][0], Label("spoke%d" % x)
                self.link(net, *((hub, n) if not k["directed"] or rng.random() < 0.5 else (n, hub)), layers[0], layers[0], 2)
                links += 1
        combos = 1
        for s in net.slices[1:]:
            combos *= len(s)
        return net, {"nodes": len(net), "nodelayers": sum(1 for _ in net.iter_node_layers()), "combinations": combos, "links": links}

    def link(self, net, a, b, l1, l2, w):
        key = (a, b)
        for x, y in zip(l1, l2):
            key += (x, y)
        net[key] = w

    def key(self, a, b, l1, l2):
        key = (a, b)
        for x, y in zip(l1, l2):
            key += (x, y)
        return key

    def operations(self, k, rng):
        asp, mp, full = k["aspects"], k["mp"], k["full"]
        layers = list(itertools.product(*k["names"]))
        nls = [(n,) + l for n in k["nodes"] for l in layers]
        node = lambda net, nl: net[nl] if asp else net[nl[0]]
        keys = [self.key(*h) for h in k["have"]] or []
        missing = [self.key(a, b, l, l) for a, b in itertools.permutations(k["nodes"], 2) for l in layers]
        rng.shuffle(missing)
        missing = missing[:12]
        yield "read-links", [lambda net, x=x: net[x] for x in keys + missing]
        if mp:
            inter = [self.key(n, n, l, m) for n in k["nodes"] for l, m in itertools.permutations(layers, 2)][:20]
            yield "read-couplings", [lambda net, x=x: net[x] for x in inter]
        yield "read-membership", [lambda net, n=n: (n in net, len(net)) for n in k["nodes"]]
        far = k["grow"] == "layers" and mp and not (full and all(c != "network" for c in k["couplings"]))
        if not far:
            yield "degrees", [lambda net, x=x: (node(net, x).deg(), node(net, x).deg_in(), node(net, x).deg_out(), node(net, x).deg_total()) for x in nls]
        if not (mp and k["grow"] == "layers") and k["grow"] != "neighbors":
            yield "neighbors", [lambda net, x=x: (list(node(net, x)), list(node(net, x).iter_in()), list(node(net, x).iter_out())) for x in nls]
            yield "strengths", [lambda net, x=x: (node(net, x).str(), node(net, x).str_in(), node(net, x).str_out()) for x in nls]
        if mp:
            yield "degrees-in-layer", [lambda net, l=l, n=n: net.A[lay(l)][n].deg() for l in layers for n in k["nodes"]]
            if k["grow"] != "neighbors":
                yield "neighbors-in-layer", [lambda net, l=l, n=n: list(net.A[lay(l)][n]) for l in layers for n in k["nodes"]]
            yield "read-in-layer", [lambda net, l=l: [net.A[lay(l)][a, b] for a, b in itertools.combinations(k["nodes"], 2)] for l in layers]
        yield "set-links", [lambda net, x=x: net.__setitem__(x, 7) for x in keys + missing]
        yield "overwrite-links", [lambda net, x=x: net.__setitem__(x, 8) for x in keys + missing]
        yield "delete-links", [lambda net, x=x: net.__setitem__(x, 0) for x in missing + keys]
        new = [Label("new%d" % x) for x in range(6)]
        yield "add-nodes", [lambda net, n=n: net.add_node(n) for n in new]
        if not full:
            yield "add-nodes-to-layers", [lambda net, n=n, l=l: net.add_node(n, layer=lay(l)) for n in new for l in layers]
        if asp and (not mp or asp == 1):
            yield "add-layers", [lambda net, x=x: net.add_layer(x, 1) for x in ([Label("newlayer%d" % x) for x in range(4)] if not mp or k["couplings"][0] != "ordinal" else [-5, -6, -7])]

    def iterations(self, k):
        """Name, function, and the numbers of things it has to go through."""
        asp, mp, full = k["aspects"], k["mp"], k["full"]
        every = lambda net, s: (s["nodes"] * s["combinations"], s["links"])
        if k["grow"] == "neighbors":
            hub = (k["nodes"][0],) + tuple(x[0] for x in k["names"])
            yield "neighbors", lambda net: (list(net[hub] if asp else net[hub[0]])), lambda net, s: ((net[hub] if asp else net[hub[0]]).deg(),)
        yield "nodes", lambda net: [n for n in net], lambda net, s: (s["nodes"],)
        if asp:
            last = lay(tuple(x[-1] for x in k["names"]))
            yield "nodes-of-layer", lambda net: list(net.iter_nodes(last)), lambda net, s: (1 + len(list(net.iter_nodes(last))),)
        if full or asp == 1:
            yield "node-layers", lambda net: list(net.iter_node_layers()), lambda net, s: (s["nodelayers"], s["combinations"])
        if not mp:
            yield "edges", lambda net: list(net.edges), every
        else:
            first = lambda net: net.A[lay(tuple(x[0] for x in k["names"]))]
            yield "edges-of-layer", lambda net: list(first(net).edges), lambda net, s: (len(first(net)), max(1, len(first(net).edges)))
            yield "edges-of-all-layers", lambda net: [list(net.A[l].edges) for l in net.A], every

    def models(self, rng, cx):
        """Erdos-Renyi networks cost as much as they have nodes in layers and links."""
        import random
        pm = self.pm
        if rng.random() < 0.4:
            return self.sparse(rng, cx)
        n, b, f = rng.randint(5, 12), rng.randint(10, 30), rng.choice([4, 5])
        grow = rng.choice(["layers", "nodes"])
        which = rng.choice(["p", "edges"])
        per = []
        for m in (1, f):
            nn, bb = (n, b * m) if grow == "layers" else (40 * m, 3)
            p = 0.15 if grow == "layers" else 2.0 / nn
            arg = [p] * bb if which == "p" else None
            random.seed(rng.random())
            box = []
            if which == "p":
                c = self.meter.steps(lambda: box.append(pm.er(nn, arg)))
            else:
                c = self.meter.steps(lambda: box.append(pm.er(nn, edges=[int(p * nn * (nn - 1) / 2)] * bb)))
            net = box[0]
            e = sum(len(net.A[l].edges) for l in net.A)
            cx.eq("model-size", (len(net), len(net.slices[1])), (nn, bb), "nodes and layers")
            per.append((c, nn * bb + e, entries(net), nn + bb + e))
        cx.count("models")
        cx.log(("er", grow, which, per))
        (c0, s0, m0, t0), (c1, s1, m1, t1) = per
        cx.true("model-steps", c1 <= 1.6 * c0 * (s1 / float(s0)) + 200, "er with more %s took %d steps for %d node-layers and links, and %d for %d" % (grow, c0, s0, c1, s1))
        cx.true("model-storage", all(m <= 40 * t + 200 for m, t in ((m0, t0), (m1, t1))), "er stores %d entries for %d nodes, layers and links, and %d for %d" % (m0, t0, m1, t1))
        cx.key("er", grow, which, n, b, f)

    def sparse(self, rng, cx):
        """Many nodes and few links."""
        import random
        pm = self.pm
        n, e, f = rng.randint(150, 250), rng.randint(0, 40), rng.choice([5, 7])
        which = rng.choice(["p", "edges", "p-layers", "edges-layers", "lists"])
        costs, peaks = [], []
        for m in (n, n * f):
            p = e * 2.0 / (m * (m - 1))
            make = {"p": lambda: pm.er(m, p), "edges": lambda: pm.er(m, edges=e), "p-layers": lambda: pm.er(m, [p]),
                    "edges-layers": lambda: pm.er(m, edges=[e]), "lists": lambda: pm.er([list(range(m))], edges=[e])}[which]
            seed = rng.random()
            random.seed(seed)
            costs.append(self.meter.steps(make))
            random.seed(seed)
            peaks.append(self.meter.peak(make))
        cx.count("models")
        cx.count("sparse")
        cx.log(("sparse er", which, n, e, f, costs, peaks))
        cx.true("model-steps", costs[1] <= 1.6 * f * costs[0] + 5000, "er (%s) took %d steps for %d nodes and %d for %d, with %d links" % (which, costs[0], n, costs[1], n * f, e))
        cx.true("model-memory", peaks[1] <= 1.8 * f * peaks[0] + 100000, "er (%s) used %d bytes for %d nodes and %d for %d, with %d links" % (which, peaks[0], n, peaks[1], n * f, e))
        cx.key("sparse", which, n, e, f)
