"""Monitors for isomorphisms (isomorphisms/) and graphlets (graphlets/)."""
import itertools, math, random
from lib import bliss, core, gen, model
from lib.model import Ref


def permute(ref, maps):
    """The network with elementary layers renamed by one dict per aspect (missing: fixed)."""
    f = lambda nl: tuple(m.get(x, x) for m, x in zip(maps, nl))
    r = Ref(ref.aspects, ref.directed, ref.noEdge, ref.full, ref.couplings)
    r.nodes = {maps[0].get(n, n) for n in ref.nodes}
    r.layers = [{maps[a + 1].get(l, l) for l in ls} for a, ls in enumerate(ref.layers)]
    r.nls = {f(nl) for nl in ref.nls}
    r.w = {(f(a), f(b)): w for (a, b), w in ref.w.items()}
    if ref.couplings is not None:
        cs = []
        for a, c in enumerate(ref.couplings):
            if c[0] == "network":
                m = maps[a + 1]
                c = ("network", {(m.get(x, x), m.get(y, y)): w for (x, y), w in c[1].items()}, tuple(m.get(x, x) for x in c[2]))
            cs.append(c)
        r.couplings = cs
    return r


def skeleton(ref):
    """Node-layers and unweighted links."""
    return ref.node_layers(), {frozenset(k) for k in ref.links()}


def elementary(ref):
    return [ref.nodes] + list(ref.layers)


def isomorphisms(a, b, allowed):
    """Brute force: all tuples of bijections (one dict per aspect) that turn the node-layers and links of a into those of b."""
    na, ea = skeleton(a)
    nb, eb = skeleton(b)
    A, B = elementary(a), elementary(b)
    if len(na) != len(nb) or len(ea) != len(eb):
        return
    choices = []
    for asp in range(a.aspects + 1):
        if asp in allowed:
            if len(A[asp]) != len(B[asp]):
                return
            x = sorted(A[asp], key=repr)
            choices.append([dict(zip(x, p)) for p in itertools.permutations(sorted(B[asp], key=repr))])
        else:
            choices.append([{x: x for x in A[asp]}])
    for maps in itertools.product(*choices):
        f = lambda nl: tuple(m[x] for m, x in zip(maps, nl))
        if {f(x) for x in na} == nb and {frozenset(map(f, e)) for e in ea} == eb:
            yield maps


def small(rng, sortable=True):
    """Small random undirected network as a reference model."""
    if rng.random() < 0.55:
        asp = rng.choice([0, 1, 1, 1, 2])
        ref = gen.general(rng, aspects=asp, directed=False, n=rng.choice([0, 1, 2, 3, 3, 4] if asp < 2 else [1, 2, 3]),
                          nl=[rng.choice([1, 2, 3]) for _ in range(asp)], sortable=True,
                          density=rng.choice([0.1, 0.3, 0.5, 0.8]), self_loops=rng.random() < 0.3, noEdge=gen.no_edge(rng))
    else:
        asp = rng.choice([1, 1, 2])
        ref = gen.multiplex(rng, aspects=asp, directed=False, n=rng.choice([0, 1, 2, 3, 4] if asp < 2 else [1, 2, 3]),
                            nl=[rng.choice([1, 2, 3]) for _ in range(asp)], mixed=False, noEdge=gen.no_edge(rng))
    return ref


def shuffle_maps(rng, ref, allowed, fresh):
    maps = []
    for asp, el in enumerate(elementary(ref)):
        x = sorted(el, key=repr)
        if asp not in allowed:
            maps.append({})
        elif fresh and not any(c[0] == "ordinal" for c in (ref.couplings or [])):
            maps.append(dict(zip(x, gen.shuffled(rng, ["q%d" % k for k in range(len(x))]))))
        else:
            maps.append(dict(zip(x, gen.shuffled(rng, x))))
    return maps


def mutate(rng, ref):
    """A small change, preferably keeping the numbers of links and node-layers."""
    r = ref.copy()
    r.couplings = ref.couplings
    nls = sorted(r.node_layers(), key=repr)
    ok = lambda a, b: r.couplings is None or (a[1:] == b[1:] and a != b)
    if not nls:
        return r
    for _ in range(rng.choice([1, 1, 2])):
        ex = sorted({tuple(sorted(k, key=repr)) for k in r.w}, key=repr)
        op = rng.choice(["rewire", "rewire", "rewire", "add", "remove", "swap", "node"])
        if op in ("rewire", "remove", "swap") and not ex:
            continue
        if op == "rewire":
            a, b = rng.choice(ex)
            free = [(x, y) for x in nls for y in nls if ok(x, y) and (x, y) not in r.w]
            if free:
                x, y = rng.choice(free)
                r.set(a, b, r.noEdge)
                r.set(x, y, 1)
        elif op == "swap" and len(ex) > 1:
            (a, b), (c, d) = rng.sample(ex, 2)
            if ok(a, d) and ok(c, b) and (a, d) not in r.w and (c, b) not in r.w and len({a, b, c, d}) == 4:
                for p in ((a, b), (c, d)):
                    r.set(p[0], p[1], r.noEdge)
                r.set(a, d, 1)
                r.set(c, b, 1)
        elif op == "add":
            x, y = rng.choice(nls), rng.choice(nls)
            if ok(x, y):
                r.set(x, y, 1)
        elif op == "remove":
            r.set(*rng.choice(ex), r.noEdge)
        elif op == "node" and not r.full:
            gone = rng.choice(nls)
            if not any(gone in k for k in r.w):
                r.nls.discard(gone)
                full = [x for x in itertools.product(sorted(r.nodes, key=repr), *r.layers) if x not in r.nls]
                if full:
                    r.nls.add(rng.choice(full))
    return r


def comparable(a, b, allowed):
    """The layers of the fixed aspects are the same, or all of them carry node-layers (otherwise the definitions of
    isomorphism in use differ)."""
    na, nb = a.node_layers(), b.node_layers()
    for asp in range(a.aspects + 1):
        if asp not in allowed:
            for ref, nls in ((a, na), (b, nb)):
                if elementary(a)[asp] != elementary(b)[asp] and elementary(ref)[asp] != {x[asp] for x in nls}:
                    return False
    return True


def allowed_sets(aspects):
    out = []
    for k in range(0, aspects + 2):
        out += [list(c) for c in itertools.combinations(range(aspects + 1), k)]
    return out


class Iso(core.Check):
    id = "C31"
    quick, thorough = 6000, 80000
    case_seconds, slow_ok = 20, 0.002  # the search of networkx takes exponential time in rare networks
    files = ["pymnet/isomorphisms/isomcore.py", "pymnet/isomorphisms/nxbackend.py", "pymnet/isomorphisms/blissbackend.py",
             "pymnet/isomorphisms/__init__.py"]
    minima = {"isomorphic": 5000, "not_isomorphic": 3000, "same_counts_not_isomorphic": 1200, "mappings": 4000, "partial": 4000,
              "multiplex": 2000, "not_full": 2000, "two_aspects": 1200, "bliss": 2000, "label_mismatch": 150}
    rule = ("case: a small random undirected multilayer or multiplex network and a permuted copy, a permuted and slightly changed copy, "
            "or another network; for random sets of permutable aspects is_isomorphic must agree with a brute-force search over all "
            "permutations, and get_isomorphism must give a permutation that turns the first network into the second, with every "
            "backend. Non-trivial: networks with at least two links; distinct by the pair of networks and aspects")
    assumptions = ["weights are not part of the isomorphisms; layers of fixed aspects are the same or carry node-layers",
                   "PyBliss is not installable: its backend runs on a stand-in for the PyBliss module"]

    def before_import(self):
        bliss.install()

    def case(self, rng, cx, i):
        pm = self.pm
        a = small(rng)
        if a.couplings is not None:
            cx.count("multiplex")
        if not a.full:
            cx.count("not_full")
        if a.aspects == 2:
            cx.count("two_aspects")
        cx.log("first", gen.describe(a))
        na = model.build(pm, a)
        before = model.structure(na)
        for allowed in rng.sample(allowed_sets(a.aspects), min(3, 2 ** (a.aspects + 1))):
            kind = rng.choice(["copy", "copy", "mutant", "mutant", "more-permuted", "other"])
            if kind == "copy":
                b = permute(a, shuffle_maps(rng, a, allowed, rng.random() < 0.3))
            elif kind == "mutant":
                b = permute(mutate(rng, a), shuffle_maps(rng, a, allowed, False))
            elif kind == "more-permuted":
                b = permute(a, shuffle_maps(rng, a, range(a.aspects + 1), False))
            else:
                b = small(rng)
            if b.aspects != a.aspects or not comparable(a, b, allowed):
                continue
            if any(c[0] == "ordinal" for c in (b.couplings or [])) and any(not isinstance(l, int) for ls in b.layers for l in ls):
                continue
            cx.log("second", gen.describe(b), "allowed", allowed)
            nb = model.build(pm, b)
            all_iso = next(iter(isomorphisms(a, b, allowed)), None)
            want = all_iso is not None
            cx.count("isomorphic" if want else "not_isomorphic")
            if not want and len(a.node_layers()) == len(b.node_layers()) and len(a.links()) == len(b.links()):
                cx.count("same_counts_not_isomorphic")
            if len(allowed) <= a.aspects:
                cx.count("partial")
                pa = {tuple(x[k] for k in range(a.aspects + 1) if k not in allowed) for x in a.node_layers()}
                pb = {tuple(x[k] for k in range(a.aspects + 1) if k not in allowed) for x in b.node_layers()}
                if len(pa) != len(pb):
                    cx.count("label_mismatch")
            arg = allowed
            if len(allowed) == a.aspects + 1 and rng.random() < 0.5:
                arg = "all"
            elif rng.random() < 0.3:
                arg = rng.choice([tuple, set, lambda x: list(reversed(x))])(allowed)
            for backend in rng.choice([["nx", "auto"], ["nx"], ["bliss"], ["auto"], ["nx", "bliss"]]):
                kw = {} if backend == "auto" and rng.random() < 0.5 else {"backend": backend}
                if backend == "bliss":
                    cx.count("bliss")
                got = pm.is_isomorphic(na, nb, allowed_aspects=arg, **kw)
                cx.eq("is-isomorphic:" + backend, bool(got), want, "is_isomorphic with aspects %r, backend %s" % (allowed, backend))
                fixed = rng.random() < 0.5
                iso = pm.get_isomorphism(na, nb, allowed_aspects=arg, include_fixed=fixed, **kw)
                if not want:
                    cx.true("no-isomorphism", iso is None, "get_isomorphism gave %r for networks that are not isomorphic" % (iso,))
                    continue
                cx.true("isomorphism-found", iso is not None, "get_isomorphism gave None for isomorphic networks")
                check_perm(cx, "isomorphism", a, b, allowed, iso, fixed)
                cx.count("mappings")
                if not fixed and rng.random() < 0.2 and a.couplings is None:
                    rel = pm.transforms.relabel(na, iso[0], iso[1] if a.aspects == 1 else iso[1:])
                    got = permute(a, iso)
                    model.compare(cx, rel, got, "relabel-by-isomorphism", maxpairs=200, rng=rng)
            if len(a.w) >= 4:
                cx.key(gen.sig(a), gen.sig(b), allowed)
            cx.sample({"first": gen.describe(a), "allowed": allowed, "isomorphic": want})
        if rng.random() < 0.05:
            cx.raises("unknown-backend", AssertionError, pm.is_isomorphic, na, na, backend="nope")
            d = pm.MultilayerNetwork(aspects=1, directed=True)
            cx.raises("directed", AssertionError, pm.is_isomorphic, d, d)
        cx.true("reflexive", pm.is_isomorphic(na, na), "a network is not isomorphic to itself")
        cx.eq("pure", model.structure(na), before, "network changed")


def check_perm(cx, mech, a, b, allowed, iso, fixed):
    cx.eq(mech + "-shape", len(iso), a.aspects + 1, "number of aspects of %r" % (iso,))
    A, B = elementary(a), elementary(b)
    maps = []
    for asp in range(a.aspects + 1):
        m = iso[asp]
        cx.true(mech + "-keys", set(m) <= A[asp], "aspect %d of %r maps unknown elements" % (asp, iso))
        if fixed:
            cx.eq(mech + "-fixed", set(m), A[asp], "elements of aspect %d when fixed ones are included" % asp)
        else:
            cx.true(mech + "-notfixed", all(k != v for k, v in m.items()), "fixed elements in %r" % (m,))
        full = {x: m.get(x, x) for x in A[asp]}
        if asp in allowed:
            cx.eq(mech + "-bijection", sorted(map(repr, full.values())), sorted(map(repr, B[asp])), "image in aspect %d" % asp)
        else:
            cx.true(mech + "-identity", all(k == v for k, v in m.items()), "aspect %d is not permutable, but %r" % (asp, m))
        maps.append(full)
    f = lambda nl: tuple(m[x] for m, x in zip(maps, nl))
    na, ea = skeleton(a)
    nb, eb = skeleton(b)
    cx.eq(mech + "-nodelayers", {f(x) for x in na}, nb, "node-layers mapped by %r" % (iso,))
    cx.eq(mech + "-links", {frozenset(map(f, e)) for e in ea}, eb, "links mapped by %r" % (iso,))
    return maps


class Invariant(core.Check):
    id = "C32"
    quick, thorough = 3500, 40000
    files = Iso.files
    minima = {"equal_invariants": 5000, "different_invariants": 2500, "groups": 3000, "nontrivial_groups": 1500, "partial": 2000}
    rule = ("case: a small random undirected network, permuted copies and slightly changed copies; complete invariants must be equal "
            "exactly for isomorphic networks (brute force), every automorphism generator must leave the network unchanged, and the "
            "generators must generate the whole automorphism group found by brute force. Non-trivial: group of order 2 or more; "
            "distinct by network and aspects")
    assumptions = Iso.assumptions

    def before_import(self):
        bliss.install()

    def case(self, rng, cx, i):
        pm = self.pm
        a = small(rng)
        na = model.build(pm, a)
        cx.log("network", gen.describe(a))
        for allowed in rng.sample(allowed_sets(a.aspects), min(3, 2 ** (a.aspects + 1))):
            cx.log("allowed", allowed)
            if len(allowed) <= a.aspects:
                cx.count("partial")
            arg = "all" if len(allowed) == a.aspects + 1 and rng.random() < 0.5 else allowed
            inv = pm.get_complete_invariant(na, allowed_aspects=arg)
            hash(str(inv))
            for _ in range(3):
                kind = rng.choice(["copy", "mutant", "more"])
                b = a if kind != "mutant" else mutate(rng, a)
                b = permute(b, shuffle_maps(rng, b, allowed if kind != "more" else range(a.aspects + 1), kind == "copy" and rng.random() < 0.3))
                if any(c[0] == "ordinal" for c in (b.couplings or [])) and any(not isinstance(l, int) for ls in b.layers for l in ls):
                    continue
                if not comparable(a, b, allowed):
                    continue
                want = next(iter(isomorphisms(a, b, allowed)), None) is not None
                nb = model.build(pm, b, order=gen.shuffled(rng, b.w))
                inv2 = pm.get_complete_invariant(nb, allowed_aspects=arg)
                cx.eq("invariant", inv == inv2, want, "equality of the invariants of %s (second network %s)" % (
                    "isomorphic networks" if want else "networks that are not isomorphic", gen.describe(b)))
                cx.eq("invariant-str", str(inv) == str(inv2), want, "equality of the invariants as strings")
                cx.count("equal_invariants" if want else "different_invariants")
            group = {tuple(tuple(sorted(m.items(), key=repr)) for m in g) for g in isomorphisms(a, a, allowed)}
            fixed = rng.random() < 0.5
            gens = pm.get_automorphism_generators(na, allowed_aspects=arg, include_fixed=fixed)
            maps = [check_perm(cx, "automorphism", a, a, allowed, g, fixed) for g in gens]
            key = lambda g: tuple(tuple(sorted(m.items(), key=repr)) for m in g)
            ident = [{x: x for x in el} for el in elementary(a)]
            seen, todo = {key(ident)}, [ident]
            while todo:
                q = todo.pop()
                for g in maps:
                    r = [{x: m[y] for x, y in qm.items()} for qm, m in zip(q, g)]
                    if key(r) not in seen:
                        seen.add(key(r))
                        todo.append(r)
            cx.eq("group-order", len(seen), len(group), "order of the group generated by the automorphism generators")
            cx.eq("group", seen, group, "group generated by the automorphism generators")
            cx.count("groups")
            if len(group) > 1:
                cx.count("nontrivial_groups")
                cx.key(gen.sig(a), allowed)
            cx.sample({"network": gen.describe(a), "allowed": allowed, "group order": len(group)})
