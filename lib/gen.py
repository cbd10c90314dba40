"""Seeded workload generators."""
import itertools
from lib.model import Ref, interleave

NODE_POOLS = [
    list(range(1, 40)),
    list("abcdefghijklmnopqrstuvwxyz") + ["n%d" % i for i in range(20)],
    [10 ** 6 + 37 * i for i in range(40)],
    [-20 + i for i in range(40)],
    [0.5 * i for i in range(40)],
    [u"\u00e4%d" % i for i in range(40)],
]
MIXED_POOL = [1, "1", 2, "2", 0, "", "a", "b", -1, 3.5, frozenset([1]), "x y", 7, 8, 9, 10, "z", u"\u00f6"]
FROZEN_POOL = [frozenset(range(i, i + k)) for i in range(6) for k in (1, 2, 3)]  # ordered only partially
MIXED_LAYERS = [0, "", "0", 1, 2.5, frozenset(), frozenset([1]), frozenset([2]), "a b", u"\u00f6"]
LAYER_POOLS = [
    list("abcdefghij"),
    list(range(1, 11)),
    ["layer%d" % i for i in range(10)],
    list(range(0, -10, -1)),
    list(range(10, 200, 19)),
]


def nodes(rng, n, mixed=False, sortable=True):
    pool = rng.choice(NODE_POOLS)
    if mixed and not sortable and n <= len(MIXED_POOL):
        pool = FROZEN_POOL if rng.random() < 0.2 else MIXED_POOL
    return rng.sample(pool, min(n, len(pool)))


def layers(rng, n, kind=None, sortable=True):
    """kind 'ordinal': integer labels, mostly consecutive."""
    if kind == "ordinal":
        start = rng.choice([0, 1, 5, -2])
        if rng.random() < 0.12:                 # names less than one apart: only those at distance one follow each other
            return rng.sample([start + x / 2.0 for x in range(n + rng.choice([0, 1, 2]))], n)
        l = list(range(start, start + n + rng.choice([0, 0, 1, 2])))
        return rng.sample(l, n) if len(l) > n else rng.sample(l, len(l))
    if not sortable and rng.random() < 0.15:
        return rng.sample(MIXED_LAYERS, n)
    return rng.sample(rng.choice(LAYER_POOLS), n)


def weight(rng, kind):
    if kind == "unit":
        return 1
    if kind == "int":
        return rng.choice([1, 2, 3, 5, 7, 100])
    if kind == "signed":
        return rng.choice([-3, -1, 1, 2, 0.5, -0.25, 1e6, 1e-6])
    if kind == "float":
        return rng.choice([0.1, 0.25, 0.5, 1.0, 1.5, 2.75, 3.3])
    if kind == "digits":
        return rng.choice([0.1 + 0.2, 1 / 3.0, 123456789.25, 1e-17, 2.0 ** 60, 12345678901234567, rng.random()])
    if kind == "pos":
        return round(rng.uniform(0.01, 5.0), 3)
    if kind == "uniq":
        return rng.randrange(1, 10 ** 9)
    raise ValueError(kind)


def size(rng, small=(0, 1, 2, 3, 3, 4, 4, 5, 5, 6), big=(8, 12), p_big=0.1):
    return rng.choice(big) if rng.random() < p_big else rng.choice(small)


def general(rng, aspects=None, directed=None, full=None, noEdge=0, wkind=None, n=None, nl=None,
            density=None, self_loops=True, sortable=True, inter=True, isolate=True, maxnl=60):
    """Random general multilayer network (reference model)."""
    if aspects is None:
        aspects = rng.choice([0, 1, 1, 1, 2, 2, 3])
    directed = rng.random() < 0.4 if directed is None else directed
    full = (rng.random() < 0.6 if full is None else full) or aspects == 0
    wkind = wkind or rng.choice(["unit", "int", "float", "signed", "uniq", "digits"])
    r = Ref(aspects, directed, noEdge, full)
    large = n is None and nl is None and density is None and aspects <= 1 and maxnl == 60 and rng.random() < 0.015
    n = size(rng) if n is None else n
    if aspects == 3:
        n = min(n, 3)
    if large:
        n, nl, density = rng.choice([(20, [2], 0.03), (30, [2], 0.02), (33, [1], 0.04), (4, [10], 0.05), (3, [10], 0.1)])
        nl = nl[:aspects]
    ns = nodes(rng, n, mixed=rng.random() < 0.3, sortable=sortable)
    ls = []
    for a in range(aspects):
        k = (nl[a] if nl else rng.choice([1, 2, 2, 3] if aspects < 3 else [1, 2, 2]))
        ls.append(layers(rng, k, sortable=sortable))
    if aspects == 1 and not nl and rng.random() < 0.15:
        ls = [layers(rng, rng.choice([4, 5, 6]), sortable=sortable)]
    for i in ns:
        r.add_node(i)
    for a in range(aspects):
        for l in ls[a]:
            r.add_layer(l, a + 1)
    allnl = list(itertools.product(ns, *ls))
    if not full:
        p = rng.choice([0.3, 0.6, 0.9])
        for nlr in allnl:
            if rng.random() < p:
                r.add_node(nlr[0], nlr[1:])
        allnl = sorted(r.nls, key=repr)
    if allnl:
        d = rng.choice([0.05, 0.2, 0.5, 0.9]) if density is None else density
        for a in allnl:
            for b in allnl:
                if not inter and a[1:] != b[1:]:
                    continue
                if a == b and not self_loops:
                    continue
                if not directed and repr(a) > repr(b):
                    continue
                if rng.random() < d * (0.5 if a == b else 1):
                    r.set(a, b, nz(rng, wkind, noEdge))
    return r


def no_edge(rng):
    """The value standing for 'no link': any object."""
    return rng.choice([0, 0, 0, 0, 0, 0, -7, 99.5, None, "no"])


def nz(rng, wkind, noEdge, zero=True):
    if zero and noEdge != 0 and rng.random() < 0.2:
        return 0
    while True:
        w = weight(rng, wkind)
        if w != noEdge:
            return w


COUPLINGS = ["categorical", "ordinal", "none", "network"]


def multiplex(rng, aspects=None, directed=None, full=None, noEdge=0, wkind=None, n=None, nl=None,
              kinds=None, density=None, sortable=True, unit_coupling=False, mixed=True):
    """Random multiplex network (reference model) without intra-layer self-links."""
    aspects = rng.choice([1, 1, 1, 2, 2, 3]) if aspects is None else aspects
    directed = rng.random() < 0.3 if directed is None else directed
    full = rng.random() < 0.6 if full is None else full
    wkind = wkind or rng.choice(["unit", "int", "float", "signed", "digits"])
    kinds = kinds or COUPLINGS
    large = n is None and nl is None and density is None and aspects == 1 and rng.random() < 0.015
    if large:
        n, nl, density = rng.choice([(20, [2], 0.1), (30, [2], 0.07), (30, [1], 0.1), (4, [10], 0.3), (3, [10], 0.5)])
    cs, ls = [], []
    for a in range(aspects):
        kind = rng.choice(kinds)
        k = nl[a] if nl else rng.choice([1, 2, 2, 3, 3, 4] if aspects == 1 else ([1, 2, 3] if aspects == 2 else [1, 2]))
        l = layers(rng, k, "ordinal" if kind == "ordinal" else None, sortable=sortable or not mixed)
        ls.append(l)
        if kind in ("categorical", "ordinal"):
            cs.append((kind, 1.0 if unit_coupling else rng.choice([1.0, 1.0, 0.5, 2, 3.25, -1.0])))
        elif kind == "none":
            cs.append(("none",))
        else:
            links = {}
            for x in l:
                for y in l:
                    if x != y and rng.random() < 0.5 and (directed or repr(x) < repr(y)):
                        w = rng.choice([1, 2, 0.5])
                        links[(x, y)] = w
                        if not directed:
                            links[(y, x)] = w
            cs.append(("network", links, tuple(l)))
    r = Ref(aspects, directed, noEdge, full, couplings=cs)
    n = size(rng, small=(0, 1, 2, 3, 4, 4, 5), big=(7, 9)) if n is None else n
    if aspects == 3:
        n = min(n, 3)
    ns = nodes(rng, n, mixed=mixed and rng.random() < 0.3, sortable=sortable)
    for i in ns:
        r.add_node(i)
    for a in range(aspects):
        for l in ls[a]:
            r.add_layer(l, a + 1)
    allnl = list(itertools.product(ns, *ls))
    if not full:
        p = rng.choice([0.3, 0.6, 0.9])
        for x in allnl:
            if rng.random() < p:
                r.add_node(x[0], x[1:])
        allnl = sorted(r.nls, key=repr)
    d = rng.choice([0.1, 0.3, 0.6, 0.9]) if density is None else density
    for a in allnl:
        for b in allnl:
            if a[1:] == b[1:] and a[0] != b[0] and (directed or repr(a) < repr(b)) and rng.random() < d:
                r.set(a, b, nz(rng, wkind, noEdge))
    return r


def describe(ref):
    return {"aspects": ref.aspects, "directed": ref.directed, "full": ref.full, "noEdge": repr(ref.noEdge),
            "couplings": repr(ref.couplings), "nodes": sorted(map(repr, ref.nodes)),
            "layers": [sorted(map(repr, l)) for l in ref.layers],
            "nls": None if ref.full else sorted(map(repr, ref.nls)),
            "links": sorted("%r-%r: %r" % (a, b, w) for (a, b), w in ref.w.items()
                            if ref.directed or repr(a) <= repr(b))}


def sig(ref):
    """Content key of a reference network."""
    return repr(describe(ref))


def shuffled(rng, seq):
    l = list(seq)
    rng.shuffle(l)
    return l
