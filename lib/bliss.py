"""Stand-in for the external PyBliss module (not installable here): canonical labelling and
automorphisms of small vertex-coloured graphs by colour refinement and individualization. It lets
the repository's own PyBliss backend (isomorphisms/blissbackend.py) and everything built on it run."""
import random, sys, types


class Graph(object):
    def __init__(self):
        self.color, self.adj = {}, {}
        self._best = None

    def add_vertex(self, v, color=0):
        self._best = None
        self.color[v] = color
        self.adj.setdefault(v, set())

    def add_edge(self, a, b):
        self._best = None
        for x in (a, b):
            if x not in self.adj:
                self.add_vertex(x)
        self.adj[a].add(b)
        self.adj[b].add(a)

    # ---- canonical form
    def _refine(self, col):
        n = len(set(col.values()))
        while True:
            sig = {v: (col[v], v in self.adj[v], tuple(sorted(col[u] for u in self.adj[v]))) for v in col}
            order = {s: i for i, s in enumerate(sorted(set(sig.values())))}
            col = {v: order[sig[v]] for v in col}
            m = len(order)
            if m == n:
                return col
            n = m

    def _text(self, lab):
        return (tuple(sorted((lab[v], self.color[v]) for v in lab)),
                tuple(sorted((min(lab[a], lab[b]), max(lab[a], lab[b])) for a in self.adj for b in self.adj[a] if lab[a] <= lab[b])))

    def _leaves(self):
        if self._best is not None:
            return self._best
        start = {c: i for i, c in enumerate(sorted(set(self.color.values())))}
        col = self._refine({v: start[c] for v, c in self.color.items()}) if self.color else {}
        best, labs = [None], []

        def rec(col):
            cells = {}
            for v, c in col.items():
                cells.setdefault(c, []).append(v)
            cell = None
            for c in sorted(cells):
                if len(cells[c]) > 1 and (cell is None or len(cells[c]) < len(cell)):
                    cell = cells[c]
            if cell is None:
                t = self._text(col)
                if best[0] is None or t < best[0]:
                    best[0] = t
                    del labs[:]
                if t == best[0]:
                    labs.append(col)
                return
            for v in cell:
                c2 = {u: 2 * c + 1 for u, c in col.items()}
                c2[v] -= 1
                rec(self._refine(c2))
        rec(col)
        self._best = (best[0], labs)
        return self._best

    # ---- PyBliss interface
    def canonical_labeling(self):
        return dict(self._leaves()[1][0])

    def relabel(self, lab):
        g = Graph()
        for v in self.color:
            g.add_vertex(lab[v], self.color[v])
        for a in self.adj:
            for b in self.adj[a]:
                g.add_edge(lab[a], lab[b])
        return g

    def get_isomorphism(self, other):
        a, b = self._leaves(), other._leaves()
        if a[0] != b[0]:
            return None
        inv = {l: v for v, l in b[1][-1].items()}
        return {v: inv[l] for v, l in a[1][0].items()}

    def find_automorphisms(self, report, param=None):
        labs = self._leaves()[1]
        inv = {l: v for v, l in labs[0].items()}
        auts = [{v: inv[lab[v]] for v in lab} for lab in labs]
        rng = random.Random(repr(self._leaves()[0]))
        rng.shuffle(auts)
        ident = tuple((v, v) for v in sorted(self.color))
        group = {ident}
        gens = []
        for p in auts:
            if tuple(sorted(p.items())) in group:
                continue
            gens.append(p)
            todo = [dict(g) for g in group]
            while todo:
                q = todo.pop()
                for g in gens:
                    r = {v: g[q[v]] for v in q}
                    k = tuple(sorted(r.items()))
                    if k not in group:
                        group.add(k)
                        todo.append(r)
        for p in gens:
            report(p, param)

    def __str__(self):
        return "p edge %d\n" % len(self.color) + "\n".join(
            ["n %s %s" % (v, self.color[v]) for v in sorted(self.color)] +
            ["e %s %s" % (a, b) for a in sorted(self.adj) for b in sorted(self.adj[a]) if a <= b])


def install():
    m = types.ModuleType("PyBliss")
    m.Graph = Graph
    sys.modules["PyBliss"] = m
