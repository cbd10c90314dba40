"""Monitors for drawing and layouts (visuals/)."""
import itertools, math, random, re
from lib import core, gen, model
from lib.model import Index

VF = ["pymnet/visuals/drawcore.py", "pymnet/visuals/drawassigners.py", "pymnet/visuals/drawnet.py",
      "pymnet/visuals/drawbackends/mpl.py", "pymnet/visuals/drawbackends/threejs.py", "pymnet/visuals/layouts.py"]


def network(rng, small=False):
    """One-aspect reference network that can be drawn."""
    n = rng.choice([1, 2, 3, 3, 4, 5] if not small else [1, 2, 3])
    if rng.random() < 0.55:
        ref = gen.multiplex(rng, aspects=1, n=n, nl=[rng.choice([1, 2, 3, 4])], mixed=False, wkind=rng.choice(["unit", "pos", "float"]),
                            noEdge=gen.no_edge(rng))
    else:
        ref = gen.general(rng, aspects=1, n=n, nl=[rng.choice([1, 2, 3, 4])], wkind=rng.choice(["unit", "pos", "float"]),
                          density=rng.choice([0.05, 0.15, 0.3]), self_loops=False, noEdge=gen.no_edge(rng))
    return ref


COLORS = ["#%02x%02x%02x" % (r, g, b) for r in (0, 90, 180, 255) for g in (0, 100, 200) for b in (10, 120, 250)]
VALUES = {
    "color": lambda rng: rng.choice(COLORS),
    "alpha": lambda rng: rng.choice([0.1, 0.25, 0.5, 0.75, 1.0]),
    "label": lambda rng: rng.choice(["L%d" % rng.randrange(100), "text", 7]),
    "labelsize": lambda rng: rng.choice([5.0, 8.0, 12.0, 20.0]),
    "style": lambda rng: rng.choice(["normal", "italic", "oblique"]),
    "loc": lambda rng: (rng.choice([0, 0.5, 1]), rng.choice([0.2, 1.1])),
    "size": lambda rng: rng.choice([0.01, 0.05, 0.1, 0.3]),
    "width": lambda rng: rng.choice([0.5, 1.0, 2.5, 4.0]),
    "line": lambda rng: rng.choice(["-", "--", ":", "-."]),
    "z": lambda rng: rng.choice([0, 0.25, 1]),
}
PROPS = {
    "layer": {"layerColor": "color", "layerAlpha": "alpha", "layerLabel": "label", "layerLabelLoc": "loc", "layerLabelSize": "labelsize",
              "layerLabelColor": "color", "layerLabelStyle": "style", "layerLabelAlpha": "alpha"},
    "node": {"nodeLabel": "label", "nodeLabelSize": "labelsize", "nodeLabelColor": "color", "nodeLabelStyle": "style",
             "nodeLabelAlpha": "alpha", "nodeSize": "size", "nodeColor": "color"},
    "edge": {"edgeColor": "color", "edgeWidth": "width", "edgeAlpha": "alpha", "edgeStyle": "line", "edgeZ": "z"},
}
DEFAULTS = {"layerColor": "#29b7c1", "layerAlpha": 0.75, "layerLabelLoc": (1, 1), "layerLabelSize": None, "layerLabelColor": "k",
            "layerLabelStyle": "normal", "layerLabelAlpha": 1.0, "nodeLabelSize": None, "nodeLabelColor": "k", "nodeLabelStyle": "normal",
            "nodeLabelAlpha": 1.0, "nodeColor": "black", "edgeColor": "gray", "edgeWidth": 1.5, "edgeAlpha": 1, "edgeZ": 0}


def upper(p):
    return p[0].upper() + p[1:]


RULE_KEYS = {"rule", "mapping", "f", "scaleby", "colormap", "sequence", "propscale", "scalecoeff", "intra", "inter"}


class Spec(object):
    """Random values for one property: keyword arguments of draw and the value expected for every element."""

    def __init__(self, rng, cx, kind, prop, elements, w):
        vk = PROPS[kind][prop]
        val = lambda: VALUES[vk](rng)
        n = len(w.ref.nodes)
        self.kw, self.want, self.multiset = {}, {}, None
        D = {}
        if rng.random() < 0.5:
            for e in elements:
                if rng.random() < 0.4:
                    D[e] = val()
        used = {}
        if D:
            passed = {}
            for e, v in D.items():
                if kind == "edge" and not w.ref.directed:
                    e2 = (e[1], e[0])
                    if e2 in D:
                        if e2 in passed or e in passed:
                            continue
                        v = D[e]
                        passed[e if rng.random() < 0.5 else e2] = v
                        used[e] = used[e2] = v
                        continue
                    used[e2] = v
                passed[e] = v
                used[e] = v
            self.kw[prop + "Dict"] = passed
            cx.count("dict")
        rule, rf = None, None
        if rng.random() < 0.45:
            rule, rf = self.rule(rng, cx, kind, prop, vk, val, elements, w)
        if rule is None and rng.random() < 0.3:
            rule = {}
        dflt = DEFAULTS.get(prop)
        if rng.random() < 0.5 or prop == "nodeSize":
            dflt = val()
            self.kw["default" + upper(prop)] = dflt
            cx.count("default")
        if rule is not None:
            self.kw[prop + "Rule"] = rule
        elif prop == "layerLabel":
            rf = lambda e: e
        elif prop == "nodeLabel":
            rf = lambda e: e[0]
        elif prop == "nodeSize":
            rf = lambda e: 0.2 / math.sqrt(n)
        elif prop == "edgeStyle":
            rf = lambda e: "-" if e[0][1] == e[1][1] else ":"
        if prop == "edgeStyle" and dflt is None:
            dflt = "-"
        for e in elements:
            if e in used:
                self.want[e] = used[e]
            elif rf is not None:
                r = rf(e)
                self.want[e] = dflt if r is None else r
            else:
                self.want[e] = dflt

    def rule(self, rng, cx, kind, prop, vk, val, elements, w):
        cx.count("rule")
        opts = ["name-f"] if prop != "nodeSize" else []
        # keys of mapping rules share the dictionary with the options of the rule
        clash = any(l in RULE_KEYS for l in w.ref.layers[0])
        if kind == "layer":
            opts += ["name-mapping", "name-mapping"] if not clash else []
        if kind == "node":
            opts += ["degree-f"] if clash else ["layer-mapping", "degree-f"]
            if prop in ("nodeSize", "nodeLabelSize"):
                opts += ["degree-scale"]
            if prop == "nodeSize":
                opts += ["scaled", "propscale", "propscale"]
            if prop == "nodeLabel":
                opts += ["nodename-f", "name"]
            if vk == "color":
                opts += ["degree-cmap"]
        if kind == "edge":
            opts += ["edgetype", "edgetype", "edgetype-half"] + ([] if clash else ["layer-mapping"])
            if vk == "width":
                opts += ["weight-scale", "weight"] + ([] if clash else ["weight-layer"])
            if vk == "color":
                opts += ["weight-cmap", "swd-f"]
        o = rng.choice(opts)
        cx.count("rule:" + o)
        table = {}

        def f(x):
            return table[x]
        deg = lambda e: len(w.ix.neigh(e, "tot"))
        wt = lambda e: w.ix.L[e]
        if o == "name-f":
            table.update({e: val() for e in elements})
            if kind == "edge" and not w.ref.directed:
                pass
            return {"rule": "name", "f": f}, lambda e: table[e]
        if o == "name":
            return {"rule": "name"}, lambda e: e
        if o == "name-mapping":
            table.update({e: val() for e in elements})
            r = {"rule": "name", "mapping": True}
            r.update(table)
            return r, lambda e: table[e]
        if o == "layer-mapping":
            ls = list(w.ref.layers[0]) + ["interlayer"]
            table.update({l: val() for l in ls})
            r = {"rule": "layer", "mapping": True}
            r.update(table)
            if kind == "node":
                return r, lambda e: table[e[1]]
            return r, lambda e: table[e[0][1] if e[0][1] == e[1][1] else "interlayer"]
        if o == "degree-f":
            table.update({d: val() for d in range(100)})
            return {"rule": "degree", "f": f}, lambda e: table[deg(e)]
        if o == "degree-scale":
            c = rng.choice([0.01, 0.02]) if prop == "nodeSize" else 2.0
            return {"rule": "degree", "f": lambda d: d + 1, "scaleby": c}, lambda e: (deg(e) + 1) * c
        if o == "scaled":
            c = rng.choice([0.1, 0.3])
            if rng.random() < 0.3:
                return {"rule": "scaled"}, lambda e: 1.0 / math.sqrt(len(w.ref.nodes))
            return {"rule": "scaled", "scalecoeff": c}, lambda e: c / math.sqrt(len(w.ref.nodes))
        if o == "propscale":
            c = rng.choice([0.05, 0.1])
            return {"rule": "degree", "propscale": c, "scaleby": 2}, lambda e: 2 * deg(e) * c / math.sqrt(len(w.ref.nodes))
        if o == "nodename-f":
            return {"rule": "nodename", "f": lambda x: "<%s>" % (x,)}, lambda e: "<%s>" % (e[0],)
        if o in ("degree-cmap", "weight-cmap"):
            import matplotlib
            name = rng.choice(["jet", "viridis", "gray"])
            cmap = matplotlib.colormaps[name]
            x = deg if o == "degree-cmap" else wt
            c = rng.choice([0.1, 0.07])
            return {"rule": "degree" if o == "degree-cmap" else "edgeweight", "scaleby": c, "colormap": name}, lambda e: tuple(cmap(float(x(e) * c)))
        if o == "edgetype":
            a, b = val(), val()
            return {"rule": "edgetype", "intra": a, "inter": b}, lambda e: a if e[0][1] == e[1][1] else b
        if o == "edgetype-half":
            a, which = val(), rng.choice(["intra", "inter"])
            return {"rule": "edgetype", which: a}, lambda e: a if (e[0][1] == e[1][1]) == (which == "intra") else None
        if o == "weight":
            return {"rule": "edgeweight"}, wt
        if o == "weight-scale":
            return {"rule": "edgeweight", "scaleby": 0.5}, lambda e: 0.5 * wt(e)
        if o == "weight-layer":
            ls = list(w.ref.layers[0]) + ["interlayer"]
            t = {l: rng.choice([0.5, 1.0, 2.0]) for l in ls}
            r = {"rule": "edgeweight", "scaleby": "layer"}
            r.update(t)
            return r, lambda e: wt(e) * t[e[0][1] if e[0][1] == e[1][1] else "interlayer"]
        if o == "swd-f":
            t = {}

            def g(x):
                return COLORS[hash(repr(sorted((repr(x[0]), repr(x[1])))) if not w.ref.directed else repr(x[:2])) % len(COLORS)]
            return {"rule": "sourcedestweight", "f": g}, lambda e: g((e[0], e[1], wt(e)))


class W(object):
    def __init__(self, ref):
        self.ref, self.ix = ref, Index(ref)


def extent(patch):
    import numpy
    s = numpy.array([tuple(map(float, v)) for v in patch._segment3d])
    return s.min(axis=0), s.max(axis=0), len(s)


def rnd(x, k=6):
    return tuple(round(float(v), k) + 0.0 for v in x)


def rgba(c, alpha=None):
    import matplotlib.colors as mc
    return rnd(mc.to_rgba(c, alpha), 4)


class Figures(core.Check):
    id = "C39"
    quick, thorough = 420, 5000
    files = VF[:4]
    minima = {"figures": 350, "nodes": 1500, "edges": 2000, "layers": 600, "labels": 1200, "crossing": 150, "directed": 60, "dict": 1200,
              "rule": 1500, "default": 1200, "aligned": 120, "unaligned": 6, "hidden_nodes": 10, "given_axes": 40, "order": 60,
              "stacked": 2500, "between_layers": 1500, "lifted": 80, "autoscaled": 50, "fixed_view": 120, "rendered": 20, "spread": 4}
    rule = ("case: a random one-aspect network drawn with Matplotlib with random property dictionaries, rules, modifiers and defaults; the "
            "artists of the figure must be exactly one circle per node-layer in its layer's plane, at the given (affinely scaled) "
            "coordinates or at one position per node, one patch per layer in the requested order, one label per label, and line segments "
            "exactly along the links, all with the requested properties; stacking order, view limits, display and elevation are read "
            "from the figure, before and after rendering. Non-trivial: two or more links; distinct by network and arguments")
    assumptions = ["the figure is read from the Matplotlib artists, not from pixels", "names of layers can be sorted unless an order is given"]

    def case(self, rng, cx, i):
        import matplotlib.pyplot as plt
        pm = self.pm
        ref = network(rng)
        if len({type(l) for l in ref.layers[0]}) > 1:
            return
        w = W(ref)
        net = model.build(pm, ref)
        cx.log("network", gen.describe(ref))
        before = model.structure(net)
        layers = sorted(ref.layers[0])
        nls = sorted(ref.node_layers(), key=repr)
        edges = sorted(w.ix.L, key=repr)
        if ref.directed:
            cx.count("directed")
        specs, kw = {}, {}
        elems = {"layer": layers, "node": nls, "edge": edges}
        for kind in PROPS:
            for prop in PROPS[kind]:
                s = Spec(rng, cx, kind, prop, elems[kind], w)
                specs[prop] = s.want
                kw.update(s.kw)
        # order of the layers
        order = list(layers)
        if rng.random() < 0.3:
            order = gen.shuffled(rng, layers)
            if rng.random() < 0.5:
                kw["layerOrderDict"] = {l: k for k, l in enumerate(order)}
            else:
                kw["layerOrderRule"] = {"rule": "name", "f": {l: k for k, l in enumerate(order)}.get}
        gap = rng.choice([1.0, 1.0, 0.3, 2.5])
        z = {l: (len(order) - 1 - k) * gap for k, l in enumerate(order)}
        if rng.random() < 0.2:
            kw["autoscale"] = rng.random() < 0.5
        if rng.random() < 0.1:
            kw["camera_dist"] = rng.choice([5, 12])
        shown = []
        if rng.random() < 0.2:
            kw["show"] = rng.random() < 0.5
        kw.update({"layergap": gap, "layershape": rng.choice(["rectangle", "circle", "circular"])})
        if rng.random() < 0.3:
            kw["layerPadding"] = rng.choice([0.01, 0.2])
        if rng.random() < 0.3:
            kw["azim"], kw["elev"] = rng.choice([-30, 10]), rng.choice([5, 60])
        if rng.random() < 0.15 and len(nls) > 1:
            # hide some nodes
            hide = rng.sample(nls, rng.randrange(1, len(nls)))
            d = dict(kw.get("nodeSizeDict", {}))
            for x in hide:
                d[x] = 0
                specs["nodeSize"][x] = 0
            kw["nodeSizeDict"] = d
            cx.count("hidden_nodes")
        mode = rng.choice(["nl", "nl", "node", "layout", "layout"])
        pos = {}
        if mode == "nl":
            pos = {x: (rng.uniform(-3, 4), rng.uniform(10, 12)) for x in nls}
            kw["nodelayerCoords"] = dict(pos)
            kw["layout"] = "random"
            kw["nodeCoords"] = {x[0]: (99, 99) for x in nls[:1]} if rng.random() < 0.3 else {}
        elif mode == "node":
            nc = {n: (rng.uniform(-3, 4), rng.uniform(-1, 2)) for n in sorted(ref.nodes, key=repr)}
            kw["nodeCoords"] = dict(nc)
            kw["layout"] = rng.choice(["random", "circular"])
            pos = {x: nc[x[0]] for x in nls}
        else:
            kw["layout"] = rng.choice(["spring", "circular", "shell", "spectral", "random", "random", "fr", "fr"])
            if kw["layout"] in ("random", "fr") and rng.random() < 0.7:
                kw["alignedNodes"] = rng.choice([False, False, None])
        if mode == "layout":
            # identify nodes by unique colors
            kw.pop("nodeColorRule", None)
            cols = rng.sample(range(1, 4096), len(nls))
            kw["nodeColorDict"] = {x: "#%06x" % (c * 4001) for x, c in zip(nls, cols)}
            specs["nodeColor"] = dict(kw["nodeColorDict"])
        cx.log("arguments", {k: v for k, v in kw.items()})
        frozen = repr({k: v for k, v in kw.items() if isinstance(v, dict)})
        fig0 = None
        if rng.random() < 0.15:
            fig0 = plt.figure()
            ax0 = fig0.add_subplot(projection="3d")
            cx.raises("2d-axes", AssertionError, pm.draw, net, ax=plt.figure().add_subplot(111)) if rng.random() < 0.3 else None
            kw["ax"] = ax0
            cx.count("given_axes")
        elif rng.random() < 0.3:
            kw["figsize"] = rng.choice([(3, 4), (5, 5)])
        try:
            show, plt.show = plt.show, lambda *a, **k: shown.append(1)
            try:
                fig = pm.draw(net, **kw)
            finally:
                plt.show = show
            ax = fig.axes[0]
            cx.count("figures")
            if fig0 is not None:
                cx.true("given-axes", fig is fig0 and len(fig.axes) == 1, "figure does not use the given axes")
            elif "figsize" in kw:
                cx.close("figsize", list(map(float, fig.get_size_inches())), [float(x) for x in kw["figsize"]], "size of the figure")
            cx.close("view", [float(ax.azim), float(ax.elev)], [float(kw.get("azim", -51)), float(kw.get("elev", 22))], "angles of view")
            self.inspect(cx, ax, w, kw, specs, layers, nls, edges, z, gap, pos, mode)
            self.frame(rng, cx, fig, ax, kw, len(layers) * gap, shown, z)
        finally:
            plt.close("all")
        cx.eq("dicts", repr({k: v for k, v in kw.items() if isinstance(v, dict)}), frozen, "dictionaries given by the caller")
        cx.eq("pure", model.structure(net), before, "network changed by drawing")
        if len(edges) > 1:
            cx.key(gen.sig(ref), sorted(kw), i)
        cx.sample({"network": gen.describe(ref), "arguments": sorted(kw)})
        if rng.random() < 0.25:
            self.order(rng, cx, net, nls, edges, layers)
        if rng.random() < 0.15:
            self.refusals(rng, cx, net)
            plt.close("all")

    def inspect(self, cx, ax, w, kw, specs, layers, nls, edges, z, gap, pos, mode):
        ref = w.ref
        # --- layers
        import matplotlib.colors as mc
        patches = [(extent(p), p) for p in ax.patches]
        shown = [l for l in layers if specs["layerAlpha"][l] != 0]
        big = [(e, p) for e, p in patches if abs(e[0][0]) < 1e-9 and abs(e[1][0] - 1) < 1e-9 and abs(e[0][1]) < 1e-9 and abs(e[1][1] - 1) < 1e-9]
        # the circle of a lone node can be as large as its layer
        lcol = {(round(z[l], 6) + 0.0, rgba(specs["layerColor"][l], specs["layerAlpha"][l])) for l in shown}
        big = [(e, p) for e, p in big if (round(float(e[0][2]), 6) + 0.0, rgba(p.get_facecolor())) in lcol]
        got = sorted((round(float(e[0][2]), 6) + 0.0, rgba(p.get_facecolor()), e[2] <= 5) for e, p in big)
        want = sorted((round(z[l], 6) + 0.0, rgba(specs["layerColor"][l], specs["layerAlpha"][l]), kw["layershape"] == "rectangle") for l in shown)
        cx.eq("layers", got, want, "layers as (height, color, rectangle)")
        cx.count("layers", len(want))
        # --- nodes
        vis = [x for x in nls if specs["nodeSize"][x] > 0]
        bigp = {id(p) for _, p in big}
        circ = []
        for e, p in patches:
            if id(p) in bigp:
                continue
            lo, hi, _ = e
            cx.close("circle", float(hi[0] - lo[0]), float(hi[1] - lo[1]), "width and height of a node", tol=1e-6)
            cx.close("flat", float(hi[2]), float(lo[2]), "height of a node", tol=1e-9)
            circ.append((((lo[0] + hi[0]) / 2, (lo[1] + hi[1]) / 2, lo[2]), float(hi[0] - lo[0]), p.get_facecolor()))
        cx.eq("node-number", len(circ), len(vis), "number of nodes drawn")
        cx.count("nodes", len(vis))
        sz = specs["nodeSize"]
        if mode == "layout":
            byc = {}
            for c in circ:
                byc.setdefault(mc.to_hex(c[2]), []).append(c)
            xy = {}
            for x in vis:
                c = byc.get(specs["nodeColor"][x], [])
                cx.true("node-color", len(c) == 1, "%d nodes with the color of %r" % (len(c), x))
                xy[x] = c[0][0]
                cx.close("node-size", c[0][1], float(sz[x]), "size of node %r" % (x,), tol=1e-6)
                cx.close("node-layer", float(c[0][0][2]), float(z[x[1]]), "height of node %r" % (x,), tol=1e-6)
            aligned = kw.get("alignedNodes", True)
            if aligned is None:
                aligned = ref.couplings is not None
            if aligned or (kw["layout"] == "fr" and ref.full):
                cx.count("aligned")
                first = {}
                for x in vis:
                    f = first.setdefault(x[0], x)
                    cx.close("aligned", [float(v) for v in xy[x][:2]], [float(v) for v in xy[f][:2]], "positions of one node on two layers", tol=1e-6)
            else:
                cx.count("unaligned")
                if kw["layout"] == "random":
                    seen = {}
                    for x in vis:
                        seen.setdefault(x[0], set()).add(rnd(xy[x][:2], 9))
                    for x, ps in seen.items():
                        k = sum(1 for v in vis if v[0] == x)
                        if k > 1:
                            cx.count("spread")
                            cx.true("unaligned", len(ps) == k, "node %r has %d positions on %d layers with alignedNodes=%r" % (x, len(ps), k, kw["alignedNodes"]))
            place = {x: tuple(map(float, xy[x])) for x in vis}
            hidden = set(nls) - set(vis)
        else:
            minx = min([pos[x][0] - sz[x] / 2. for x in nls] or [0])
            maxx = max([pos[x][0] + sz[x] / 2. for x in nls] or [0])
            miny = min([pos[x][1] - sz[x] / 2. for x in nls] or [0])
            maxy = max([pos[x][1] + sz[x] / 2. for x in nls] or [0])
            pad = kw.get("layerPadding", 0.05)
            place = {x: ((pos[x][0] - minx + pad) / (maxx - minx + 2 * pad), (pos[x][1] - miny + pad) / (maxy - miny + 2 * pad), z[x[1]]) for x in nls}
            got = sorted((rnd(c[0], 5), round(c[1], 5), rgba(c[2])) for c in circ)
            want = sorted((rnd(place[x], 5), round(float(sz[x]), 5), rgba(specs["nodeColor"][x])) for x in vis)
            match(cx, "nodes", got, want)
            hidden = set()
        for x in place:
            cx.true("inside", -1e-6 <= place[x][0] <= 1 + 1e-6 and -1e-6 <= place[x][1] <= 1 + 1e-6, "node %r outside of the layer" % (x,))
        # --- labels
        got = []
        for t in ax.texts:
            p = t.get_position_3d()
            got.append((t.get_text(), rnd(p, 2), rgba(t.get_color()), t.get_fontstyle(), t.get_alpha(), round(float(t.get_fontsize()), 3)))
        want = []
        for l in shown:
            if specs["layerLabel"][l] is not None:
                loc = specs["layerLabelLoc"][l]
                want.append(label(specs, "layerLabel", l, specs["layerLabel"][l], (loc[0], loc[1], z[l])))
        for x in vis:
            if specs["nodeLabel"][x] is not None:
                p = place[x]
                want.append(label(specs, "nodeLabel", x, specs["nodeLabel"][x], (p[0] + sz[x] / 2., p[1] + sz[x] / 2., p[2])))
        cx.count("labels", len(want))
        cx.eq("label-number", len(got), len(want), "number of labels")
        key = lambda t: repr((t[0], t[2], t[3], t[4], t[5]))
        cx.eq("labels", sorted(map(key, got)), sorted(map(key, want)), "labels with color, style, alpha and size")
        left = list(got)
        for t in want:
            best = [g for g in left if key(g) == key(t) and max(abs(a - b) for a, b in zip(g[1], t[1])) < 0.021]
            cx.true("label-place", best, "label %r is not at %r" % (t[0], t[1]))
            left.remove(best[0])
        # --- links
        want, optional, lineorder, lift = {}, set(), {}, {}
        for e in edges:
            if e[0] in hidden or e[1] in hidden:
                optional.add(e)
                continue
            for s in segments(place[e[0]], place[e[1]], gap):
                want.setdefault(skey(*s), set()).add(line_style(specs, e))
                lift.setdefault(skey(*s), set()).add(specs["edgeZ"][e])
            if abs(place[e[0]][2] - place[e[1]][2]) > gap * 1.001:
                cx.count("crossing")
        got = {}
        for l in ax.lines:
            xs, ys, zs = l.get_data_3d()
            cx.eq("segment", len(xs), 2, "number of points of a line")
            st = (rgba(l.get_color(), l.get_alpha()), l.get_linestyle(), round(float(l.get_linewidth()), 5))
            k = skey((xs[0], ys[0], zs[0]), (xs[1], ys[1], zs[1]))
            got.setdefault(k, set()).add(st)
            lineorder.setdefault(k, []).append((float(l.get_zorder()), (float(zs[0]) + float(zs[1])) / 2))
        cx.count("edges", len(edges))
        if optional:
            for k in want:
                cx.true("links", k in got, "no line drawn for a link at %r" % (k,))
        else:
            for k in set(want) | set(got):
                a, b = want.get(k) or near_key(want, k), got.get(k) or near_key(got, k)
                cx.true("links", a is not None and b is not None, "line %r: %s" % (k, "not a link" if a is None else "missing"))
                cx.eq("link-style", b, a, "color, line style and width of the line at %r" % (k,))
        self.stacking(cx, ax, gap, z, bigp, lineorder, lift)

    def stacking(self, cx, ax, gap, z, bigp, lineorder, lift):
        """What is drawn over what: layers from the bottom up, on each layer its links, then its nodes, then its labels."""
        flat = []
        for p in ax.patches:
            h = float(extent(p)[0][2])
            flat.append((h, 0 if id(p) in bigp else 1, float(p.get_zorder())))
        for k, os in lineorder.items():
            for o, h in os:
                if any(abs(h - v) < 1e-9 for v in z.values()) and abs(k[0][2] - k[1][2]) < 1e-9:
                    flat.append((h, 0.5, o))
                else:
                    cx.count("between_layers")
                    inside = [v for v in z.values() if min(k[0][2], k[1][2]) - 1e-3 < v < max(k[0][2], k[1][2]) + 1e-3]
                    cx.true("stacking-between", len(inside) == 2 and min(inside) < o < max(inside), "order %r of a line from height %r to %r" % (o, k[0][2], k[1][2]))
        flat.sort(key=lambda t: (round(t[0], 6), t[1]))
        for (h1, t1, o1), (h2, t2, o2) in zip(flat, flat[1:]):
            cx.count("stacked")
            below = abs(h1 - h2) > 1e-6
            nodes_over_layer = t1 == 0 and t2 == 1
            cx.true("stacking", o1 < o2 if below or nodes_over_layer else (o1 <= o2 or t1 == t2),
                    "order %r at height %r (kind %r) and %r at height %r (kind %r)" % (o1, h1, t1, o2, h2, t2))
        top = {}
        for h, t, o in flat:
            if t == 1:
                top[round(h, 6)] = max(top.get(round(h, 6), o), o)
        # the larger edgeZ is drawn over the smaller one
        by = {}
        for k, os in lineorder.items():
            for o, h in os:
                if k in lift and len(lift[k]) == 1:
                    by.setdefault(round(h, 6), set()).add((list(lift[k])[0], round(o, 12)))
        for h, pairs in by.items():
            pairs = sorted(pairs)
            for (a, o1), (b, o2) in zip(pairs, pairs[1:]):
                if a < b:
                    cx.count("lifted")
                    cx.true("stacking-z", o1 < o2, "order %r of a link with z %r and %r with z %r" % (o1, a, o2, b))

    def frame(self, rng, cx, fig, ax, kw, height, shown, z):
        """The view: limits of the axes, displaying, angles, and the stacking order that survives rendering."""
        cx.eq("show", len(shown), 1 if kw.get("show") else 0, "number of times the figure was displayed (show=%r)" % (kw.get("show"),))
        x, y, h = [tuple(map(float, f())) for f in (ax.get_xlim3d, ax.get_ylim3d, ax.get_zlim3d)]
        if kw.get("autoscale", True) and height > 3:
            cx.count("autoscaled")
            top = max([float(extent(p)[1][2]) for p in ax.patches] or [0])
            cx.true("fits", min(x[0], y[0], h[0]) <= 1e-9 and min(x[1], y[1]) >= 1 - 1e-9 and h[1] >= top - 1e-9, "limits %r %r %r do not hold layers up to %r" % (x, y, h, top))
        else:
            cx.count("fixed_view")
            cx.close("limits", list(x + y + h), [0, 1, 0, 1, 0, 2], "limits of the axes", tol=0.1)
        if rng.random() < 0.1:
            arts = list(ax.patches) + list(ax.lines)
            o = [float(a.get_zorder()) for a in arts]
            fig.canvas.draw()
            cx.count("rendered")
            cx.eq("rendered-order", [float(a.get_zorder()) for a in arts], o, "drawing order of the elements after rendering")
            for e, want in ((-25, 0), (210, 179), (33, 33)):
                ax.elev = e
                cx.close("elevation", float(ax.elev), float(want), "elevation set to %r" % e)

    def order(self, rng, cx, net, nls, edges, layers):
        """The order rule, observed through the property values that arrive at the figure."""
        import matplotlib.pyplot as plt
        import matplotlib.colors as mc
        seq = rng.sample(COLORS, rng.choice([1, 2, 3]))
        fig = self.pm.draw(net, layout="random", nodeColorRule={"rule": "order", "sequence": seq}, layerAlphaDict={l: 0 for l in layers},
                           nodeLabelRule={"rule": "order"}, defaultNodeSize=0.1, nodeSizeRule={})
        ax = fig.axes[0]
        got = sorted(mc.to_hex(p.get_facecolor()) for p in ax.patches)
        cx.eq("order-sequence", got, sorted(seq[k % len(seq)] for k in range(len(nls))), "colors of nodes by the order rule")
        cx.eq("order", sorted(t.get_text() for t in ax.texts), sorted(str(k) for k in range(len(nls))), "order numbers as labels")
        cx.count("order")
        plt.close("all")

    def refusals(self, rng, cx, net):
        pm = self.pm
        d = pm.draw
        x = rng.randrange(7)
        cx.count("refusals")
        if x == 0:
            cx.raises("aspects", AssertionError, d, pm.MultilayerNetwork(aspects=rng.choice([0, 2])))
        elif x == 1:
            for r in ("none such", "MPL", 7):
                err = None
                try:
                    d(net, layout="random", backend=r)
                except Exception as e:
                    err = e
                cx.true("backend", err is not None and str(r) in str(err), "backend %r: %r" % (r, err))
        elif x == 2:
            cx.raises("layout", Exception, d, net, layout="none such")
        elif x == 3 and list(net.iter_node_layers()):
            for r in ("none such", 5, ("a",)):
                err = None
                try:
                    d(net, layout="random", nodeColorRule={"rule": r})
                except Exception as e:
                    err = e
                cx.true("rule", err is not None and str(r) in str(err), "rule %r: %r" % (r, err))
        elif x == 4 and list(net.iter_node_layers()):
            cx.raises("rule-missing", AssertionError, d, net, layout="random", nodeColorRule={"scaleby": 2})
        elif x == 5 and list(net.iter_layers()):
            cx.raises("shape", AssertionError, d, net, layout="random", layershape="triangle")
        elif x == 6 and any(True for _ in net.edges):
            cx.raises("edge-z", AssertionError, d, net, layout="random", defaultEdgeZ=2)


def label(specs, base, e, text, p):
    size = specs[base + "Size"][e]
    return (str(text), rnd(p, 2), rgba(specs[base + "Color"][e]), specs[base + "Style"][e], specs[base + "Alpha"][e],
            round(float(10.0 if size is None else size), 3))


def line_style(specs, e):
    return (rgba(specs["edgeColor"][e], specs["edgeAlpha"][e]), specs["edgeStyle"][e], round(float(specs["edgeWidth"][e]), 5))


def segments(a, b, gap):
    dz = abs(a[2] - b[2])
    n = max(1, int(round(dz / gap)))
    out = []
    for k in range(n):
        f = lambda t: tuple(x + (y - x) * t / float(n) for x, y in zip(a, b))
        out.append((f(k), f(k + 1)))
    return out


def skey(a, b):
    return tuple(sorted([rnd(a, 4), rnd(b, 4)]))


def near_key(d, k):
    for q in d:
        if all(abs(x - y) < 3e-4 for a, b in zip(q, k) for x, y in zip(a, b)):
            return d[q]
        if all(abs(x - y) < 3e-4 for a, b in zip(q, reversed(k)) for x, y in zip(a, b)):
            return d[q]
    return None


def match(cx, mech, got, want):
    left = list(want)
    for g in got:
        m = [t for t in left if t[2] == g[2] and abs(t[1] - g[1]) < 1e-4 and max(abs(a - b) for a, b in zip(t[0], g[0])) < 1e-4]
        cx.true(mech, m, "drawn node (place, size, color) %r is not one of %r" % (g, left))
        left.remove(m[0])


class Layouts(core.Check):
    id = "C40"
    quick, thorough = 900, 12000
    files = VF[5:] + VF[4:5]
    minima = {"layouts": 700, "fr": 500, "nx": 250, "normalized": 700, "normalized_with_zero": 200, "threejs": 150, "two_aspects": 60, "fr_nl": 100, "initial": 100, "forces": 20, "directions": 600, "transposed": 400}
    rule = ("case: coordinates of random networks by every layout, normalization of random coordinates, and the three.js figure; every node "
            "(or node-layer) gets exactly one finite coordinate, Fruchterman-Reingold coordinates fill exactly the bounding box and draw "
            "linked groups together, networkx layouts are those of the aggregated network, normalization is linear onto the box, and "
            "spheres and links of the three.js figure meet. Non-trivial: two or more nodes; distinct by network and layout")
    assumptions = ["spring and spectral layouts of networkx are compared with equal seeds or up to sign"]

    def case(self, rng, cx, i):
        import numpy
        pm = self.pm
        L = pm.visuals.layouts
        two = rng.random() < 0.15
        if two:
            ref = gen.general(rng, aspects=2, n=rng.choice([1, 2, 3]), nl=[2, 2], density=0.1, self_loops=False)
            cx.count("two_aspects")
        else:
            ref = network(rng)
        net = model.build(pm, ref)
        before = model.structure(net)
        nodes, nls = ref.nodes, ref.node_layers()
        cx.log("network", gen.describe(ref))
        finite = lambda c: len(c) == 2 and all(math.isfinite(float(v)) for v in c)
        # --- Fruchterman-Reingold
        box = rng.choice([None, 1.0, 2.5, (3.0, 0.5), [2, 4]])
        nonaligned = not ref.full and rng.random() < 0.5
        kw = {"iterations": rng.choice([1, 2, 10, 30])}
        if box is not None:
            kw["boxSize"] = box
        if rng.random() < 0.3:
            kw["nodeDist"] = rng.choice([0.1, 0.5, "auto"])
        if nonaligned:
            kw["alignedNodes"] = False
            cx.count("fr_nl")
        keys = nls if nonaligned else nodes
        if rng.random() < 0.3 and keys:
            some = rng.sample(sorted(keys, key=repr), rng.randrange(0, len(keys) + 1))
            kw["nodelayerCoords" if nonaligned else "nodeCoords"] = {k: (rng.random(), rng.random()) for k in some}
            cx.count("initial")
        frozen = repr(kw)
        got = L.get_fruchterman_reingold_multilayer_layout(net, **kw)
        cx.count("fr")
        cx.log("fr", kw)
        cx.eq("fr-arguments", repr(kw), frozen, "arguments of the caller")
        cx.eq("fr-keys", sorted(map(repr, got)), sorted(map(repr, keys)), "elements that have coordinates")
        cx.true("fr-finite", all(finite(c) for c in got.values()), "coordinates %r" % (got,))
        bx = (1.0, 1.0) if box is None else ((box, box) if isinstance(box, float) else box)
        if got:
            for d in (0, 1):
                vals = [c[d] for c in got.values()]
                cx.close("fr-min", float(min(vals)), 0.0, "smallest coordinate in dimension %d" % d, tol=1e-7)
                if len(got) > 1:
                    cx.close("fr-max", float(max(vals)), float(bx[d]), "largest coordinate in dimension %d" % d, tol=1e-7)
        # --- get_layout
        if not two:
            lay = rng.choice(["circular", "shell", "spring", "spectral", "random", "fr"])
            al = rng.choice([True, True, None, False])
            aligned = (ref.couplings is not None) if al is None else al
            cx.log("layout", lay, "aligned", al)
            f = lambda **k: L.get_layout(lay, net, alignedNodes=al, **k)
            cx.count("layouts")
            if not aligned and lay not in ("random", "fr"):
                cx.raises("layout-unaligned", Exception, f)
            else:
                seed = rng.randrange(1000)
                k = {"seed": seed} if lay == "spring" else {}
                nc, nlc = f(**k)
                if aligned or (lay == "fr" and ref.full):
                    cx.eq("layout-keys", (sorted(map(repr, nc)), list(nlc)), (sorted(map(repr, nodes)), []), "elements that have coordinates")
                else:
                    cx.eq("layout-nlkeys", (sorted(map(repr, nlc)), list(nc)), (sorted(map(repr, nls)), []), "elements that have coordinates")
                cx.true("layout-finite", all(finite(c) for c in list(nc.values()) + list(nlc.values())), "coordinates %r" % ((nc, nlc),))
                if lay == "random":
                    cx.true("layout-random", all(0 <= v <= 1 for c in list(nc.values()) + list(nlc.values()) for v in c), "coordinates %r" % ((nc, nlc),))
                    if len(nc or nlc) > 1:
                        cx.true("layout-distinct", len({tuple(c) for c in (nc or nlc).values()}) == len(nc or nlc), "equal random coordinates")
                if lay in ("circular", "shell", "spring", "spectral") and nodes:
                    self.nx(rng, cx, pm, ref, lay, seed, nc)
                if len(nodes) > 1:
                    cx.key(gen.sig(ref), lay, al)
                cx.sample({"network": gen.describe(ref), "layout": lay, "aligned": repr(al)})
        cx.eq("pure", model.structure(net), before, "network changed by the layout")
        # --- normalization
        pool = rng.choice([None, [0.0, 1.0], [0.0, -1.0], [-2.0, -1.0, -0.5], [0.0], [0, 3, -4], [2.5]])
        co = (lambda d: rng.choice(pool)) if pool else (lambda d: rng.choice([rng.uniform(-5, 5), 1.0]) if d == 0 else rng.choice([rng.uniform(0, 1), -2.0]))
        pts = {k: (co(0), co(1)) for k in range(rng.randrange(1, 7))}
        if pool and 0.0 in pool:
            cx.count("normalized_with_zero")
        bs = rng.choice([(1.0, 1.0), (2.0, 0.5), [10, 3]])
        orig = dict(pts)
        inplace = rng.random() < 0.5
        out = L.normalize_coordinates(pts, bs, inplace=inplace)
        cx.count("normalized")
        if inplace:
            cx.true("normalize-inplace", out is pts or out == pts, "dictionary not changed in place")
            out = pts
        else:
            cx.eq("normalize-copy", pts, orig, "dictionary given by the caller")
        for d in (0, 1):
            lo, hi = min(c[d] for c in orig.values()), max(c[d] for c in orig.values())
            cx.eq("normalize-keys", set(out), set(orig), "elements")
            for k in orig:
                want = bs[d] * (orig[k][d] - lo) / (hi - lo) if hi > lo else 0.0
                cx.close("normalize", float(out[k][d]), want, "normalized coordinate %d of %r" % (d, orig[k]))
        if not two and rng.random() < 0.3:
            self.threejs(rng, cx, pm, ref, net)
        if i % 25 == 0:
            self.forces(rng, cx, pm, L)
        self.directions(rng, cx, pm, L)
        if not two and ref.nodes:
            self.transposed(rng, cx, L, net, ref, ref.full)

    def nx(self, rng, cx, pm, ref, lay, seed, nc):
        import networkx, numpy
        g = networkx.Graph()
        for n in nc:
            g.add_node(n)
        for (a, b), w in ref.links().items():
            if a[0] != b[0]:
                g.add_edge(a[0], b[0], weight=0)
        for (a, b), w in ref.links().items():
            if a[0] != b[0] and (ref.directed or repr(a) <= repr(b)):
                g[a[0]][b[0]]["weight"] += w
        cx.count("nx")
        if lay in ("circular", "shell"):
            pts = sorted(rnd(c, 4) for c in nc.values())
            want = sorted(rnd(c, 4) for c in getattr(networkx, lay + "_layout")(g).values())
            cx.true("nx-layout", all(abs(x - y) < 2e-3 for p, q in zip(sorted(math.atan2(b, a) % 6.28 for a, b in pts), sorted(math.atan2(b, a) % 6.28 for a, b in want)) for x, y in [(p, q)])
                    or len(pts) == 1, "coordinates %r, expected %r" % (pts, want))
        elif lay == "spring":
            want = networkx.spring_layout(g, seed=seed)
            for n in nc:
                cx.close("nx-spring", [float(v) for v in nc[n]], [float(v) for v in want[n]], "spring coordinates of %r" % (n,), tol=1e-3)

    def probes(self):
        pm = self.pm

        def fixed(cx):
            net = pm.MultilayerNetwork(aspects=1, fullyInterconnected=False)
            net[1, 2, "a"] = 1
            net[2, 3, "a"] = 1
            net[3, 4, "a"] = 1
            start = {1: (0.3, 0.3), 2: (0.6, 0.7), 3: (0.2, 0.1), 4: (0.5, 0.5)}
            got = pm.visuals.layouts.get_fruchterman_reingold_multilayer_layout(
                net, nodeCoords=dict(start), fixedNodes={1}, iterations=3)
            if max(abs(a - b) for a, b in zip(got[1], start[1])) > 1e-9:
                raise core.Violation("probe:fixed-nodes-move", "node 1 in fixedNodes moved from %r to %r" % (start[1], got[1]))
        return [("probe:fixed-nodes-move", fixed)]

    def forces(self, rng, cx, pm, L):
        """Two groups of nodes, linked inside: they must be closer inside than between."""
        m = rng.choice([3, 4, 5])
        directed = rng.random() < 0.3
        full = rng.random() < 0.5
        net = pm.MultilayerNetwork(aspects=1, directed=directed, fullyInterconnected=full)
        for g in (0, 1):
            for a in range(m):
                for b in range(m):
                    if a < b:
                        net[g * 10 + a, g * 10 + b, "x", "x"] = 1
        aligned = full or rng.random() < 0.5
        inn, out = 0.0, 0.0
        for _ in range(4):
            c = L.get_fruchterman_reingold_multilayer_layout(net, alignedNodes=aligned)
            key = (lambda n: n) if aligned else (lambda n: (n, "x"))
            d = lambda a, b: math.dist(c[key(a)], c[key(b)])
            ns = [g * 10 + a for g in (0, 1) for a in range(m)]
            ins = [d(a, b) for a in ns for b in ns if a < b and a // 10 == b // 10]
            outs = [d(a, b) for a in ns for b in ns if a // 10 < b // 10]
            inn += sum(ins) / len(ins)
            out += sum(outs) / len(outs)
        cx.true("fr-forces", inn < 0.75 * out, "mean distance inside linked groups %.3f, between them %.3f" % (inn / 4, out / 4))
        cx.count("forces")

    def directions(self, rng, cx, pm, L):
        """One step from given coordinates: a pair is moved along its own line, both ends alike, inwards by a link and outwards by a
        shared layer. Two fixed nodes at the corners of the box keep the final normalization from changing anything."""
        box = rng.choice([(1.0, 1.0), (2.0, 1.0), (1.0, 3.0), [1.5, 1.5]])
        kind = rng.choice(["link", "layer", "nothing"])
        aligned = rng.random() < 0.5
        net = pm.MultilayerNetwork(aspects=1, directed=rng.random() < 0.3, fullyInterconnected=False)
        corners = {"o": (0.0, 0.0), "c": tuple(map(float, box))}
        net.add_node("o", layer="lo")
        net.add_node("c", layer="lc")
        for _ in range(100):
            A, B = [tuple(rng.uniform(0.25, 0.75) * b for b in box) for _ in range(2)]
            if 0.1 < math.dist(A, B) and min(abs(A[0] - B[0]), abs(A[1] - B[1])) > 0.03:
                break
        else:
            return
        la, lb = ("x", "x") if kind == "layer" else ("x", "y")
        net.add_node("a", layer=la)
        net.add_node("b", layer=lb)
        if kind == "link":
            net["a", "b", la, lb] = rng.choice([1, 1, 2.5])
        pts = dict(corners, a=A, b=B)
        lay = {"o": "lo", "c": "lc", "a": la, "b": lb}
        kw = dict(boxSize=box, iterations=1, alignedNodes=aligned, nodeDist=rng.choice(["auto", 0.5, 1]))
        if aligned:
            kw.update(nodeCoords=pts, fixedNodes={"o", "c"})
        else:
            kw.update(nodelayerCoords={(n, lay[n]): c for n, c in pts.items()}, fixedNodeLayers={("o", "lo"), ("c", "lc")})
        cx.log("directions", kind, pts, kw)
        out = L.get_fruchterman_reingold_multilayer_layout(net, **kw)
        if not aligned:
            out = {nl[0]: c for nl, c in out.items()}
        cx.count("directions")
        if any(not (1e-3 < out[n][d] < box[d] - 1e-3) for n in "ab" for d in (0, 1)):
            return
        mv = {n: [out[n][d] - pts[n][d] for d in (0, 1)] for n in "ab"}
        tol = 1e-9
        for d in (0, 1):
            cx.true("fr-opposite", abs(mv["a"][d] + mv["b"][d]) < tol, "the two nodes of a pair moved by %r" % (mv,))
        ab = [B[d] - A[d] for d in (0, 1)]
        cx.true("fr-line", abs(mv["a"][0] * ab[1] - mv["a"][1] * ab[0]) < tol, "%r moved off the line %r" % (mv, ab))
        along = sum(mv["a"][d] * ab[d] for d in (0, 1))
        if kind == "nothing":
            cx.true("fr-free", abs(along) < tol, "unrelated nodes moved %r" % (mv,))
        elif kind == "link":
            cx.true("fr-attraction", along > 1e-7, "linked nodes moved apart: %r, line %r" % (mv, ab))
        elif kind == "layer":
            cx.true("fr-repulsion", along < -1e-7, "nodes of one layer moved together: %r, line %r" % (mv, ab))

    def transposed(self, rng, cx, L, net, ref, full):
        """All coordinates given: exchanging the two dimensions exchanges them in the result."""
        aligned = full or rng.random() < 0.5
        keys = sorted(ref.nodes if aligned else ref.node_layers(), key=repr)
        pts = {k: (rng.uniform(0, 2), rng.uniform(0, 1)) for k in keys}
        flip = lambda D: {k: (c[1], c[0]) for k, c in D.items()}
        box = rng.choice([(1.0, 1.0), (2.0, 1.0)])
        n = rng.choice([1, 2, 3])
        arg = "nodeCoords" if aligned else "nodelayerCoords"
        fixed = {("fixedNodes" if aligned else "fixedNodeLayers"): set(rng.sample(keys, rng.randrange(len(keys) + 1)))}
        f = lambda p, b: L.get_fruchterman_reingold_multilayer_layout(net, alignedNodes=aligned, iterations=n, boxSize=b, **fixed, **{arg: dict(p)})
        a, b = f(pts, box), f(flip(pts), (box[1], box[0]))
        cx.eq("fr-again", a, f(pts, box), "same coordinates given twice")
        if not aligned:   # coordinates of nodes stand in for those of their node-layers
            nodes = {k: (rng.uniform(0, 2), rng.uniform(0, 1)) for k in sorted(ref.nodes, key=repr)}
            own = {k: c for k, c in pts.items() if rng.random() < 0.5}
            g = lambda **k: L.get_fruchterman_reingold_multilayer_layout(net, alignedNodes=False, iterations=n, boxSize=box, **k)
            cx.eq("fr-node-coords", g(nodeCoords=nodes, nodelayerCoords=dict(own)), g(nodelayerCoords={k: own.get(k, nodes[k[0]]) for k in keys}),
                  "coordinates given for nodes and node-layers")
        cx.eq("fr-transposed-keys", set(a), set(b), "elements placed")
        cx.true("fr-transposed", all(abs(x - y) < 1e-6 for k in a for x, y in zip(a[k], flip(b)[k])),
                "exchanging the dimensions: %r and %r" % (a, b))
        cx.count("transposed")

    def threejs(self, rng, cx, pm, ref, net):
        w = W(ref)
        if len({type(l) for l in ref.layers[0]}) > 1:
            return
        nls = sorted(ref.node_layers(), key=repr)
        pos = {x: (rng.uniform(0, 4), rng.uniform(0, 2)) for x in nls}
        html = pm.draw(net, backend="threejs", layout="random", nodelayerCoords=pos, defaultNodeSize=0.1, nodeSizeRule={})
        num = r"(-?[0-9.e+-]+)"
        N = [tuple(map(float, t)) for t in re.findall(r"node\s*=\s*getNode\(%s\)" % ",\s*".join([num] * 4), html)]
        E = [tuple(map(float, t)) for t in re.findall(r"link\s*=\s*getLink\(%s\)" % ",\s*".join([num] * 7), html)]
        cx.count("threejs")
        cx.eq("threejs-nodes", len(N), len(nls), "number of spheres")
        cx.true("threejs-template", "@nodes" not in html and "@edges" not in html and "@layers" not in html and "</html>" in html, "template not filled")
        order = sorted(ref.layers[0])
        z = {l: len(order) - 1 - k for k, l in enumerate(order)}
        # relative positions: affine in each dimension
        want = sorted(nls, key=lambda x: pos[x][0])
        got = sorted(N)
        ends = {}
        for p in N:
            ends.setdefault(rnd(p[:3], 3), 0)
        for x, p in zip(want, got):
            ends[rnd(p[:3], 3)] = x
        if len(nls) > 1:
            for d in (1,):
                ys = sorted(nls, key=lambda x: pos[x][1])
                cx.eq("threejs-y", [ends[rnd(p[:3], 3)] for p in sorted(N, key=lambda p: p[1])], ys, "order of spheres by y")
        for x, p in zip(want, got):
            cx.close("threejs-z", p[2], 100.0 * z[x[1]], "height of the sphere of %r" % (x,))
        links = set()
        for e in E:
            a, b = ends.get(rnd(e[:3], 3)), ends.get(rnd(e[3:6], 3))
            cx.true("threejs-links", a is not None and b is not None, "link %r does not end at spheres" % (e,))
            links.add((a, b) if ref.directed else frozenset((a, b)))
        cx.eq("threejs-link-set", links, {k if ref.directed else frozenset(k) for k in w.ix.L}, "links drawn")
