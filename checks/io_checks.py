"""Monitors for reading and writing (netio.py, visuals/webplots.py) and the networkx wrapper (nxwrap.py)."""
import io, itertools, json, math, os, shutil, tempfile
from lib import core, gen, model
from lib.model import Ref, lay


class Scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="verif_io_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


class Ucinet(core.Check):
    id = "C26"
    quick, thorough = 6000, 80000
    files = ["pymnet/netio.py"]
    minima = {"files": 5000, "multiplex": 1500, "embedded": 500, "labels": 800, "wrapped": 800, "two_mode": 300, "rejected": 1500,
              "isolates": 500, "asymmetric": 1000}
    rule = ("case: a random network written as a UCINET DL full-matrix file by an independent writer (random header, label, "
            "row wrapping, whitespace and case variants, one or several matrices, asymmetric matrices, row and column labels), "
            "read from a list, generator, file name or file object; nodes, layers, node-layers, links and weights are compared. "
            "Malformed variants must be rejected. Non-trivial: at least one link; distinct by file content")
    assumptions = ["labels given in lists are lower case (embedded ones may have any case); both directions of a link have the same weight"]

    def case(self, rng, cx, i):
        pm = self.pm
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 12])
        nm = rng.choice([1, 1, 2, 3, 4])
        full = rng.random() < 0.6
        words = ["barry", "david", "lin", "pat", "russ", "x1", "a-b", "42", "q.r", "zed", "m_n", "ann", "new york", "o'hara", "7", "\u00e4b"]
        mode = rng.choice(["none", "labels", "labels", "rows+columns", "labels+rows", "labels+columns", "embedded", "columns", "rows"])
        R = C = list(range(n))
        if mode in ("labels", "embedded"):
            R = C = rng.sample(words[:12] if mode == "embedded" else words, n)
        elif mode != "none":
            pool = rng.sample(words, min(len(words), n + rng.choice([0, 1, 2])))
            A, B = rng.sample(pool, n), rng.sample(pool, n)
            if mode == "rows+columns":
                R, C = A, B
                if rng.random() < 0.3:
                    B = C = list(A)
            elif mode in ("labels+rows", "labels+columns"):
                R, C = A, B
            elif mode == "columns":
                C = B
            else:
                R = A
        if R != C:
            cx.count("two_mode")
        levels = list(range(nm))
        with_levels = rng.random() < 0.4
        level_names = rng.sample(["work", "home", "l 3", "7", "z"], nm)
        if with_levels and nm > 1:
            levels = level_names
        # content
        weighted = rng.random() < 0.3
        W, M = {}, []
        for l in range(nm):
            d = rng.choice([0.0, 0.2, 0.5, 0.9])
            rows = []
            for r in range(n):
                row = []
                for c in range(n):
                    key = (levels[l], frozenset((R[r], C[c])))
                    if R[r] == C[c]:
                        row.append(rng.choice(["0", "0", "1", "3"]))
                    elif rng.random() < d:
                        if key not in W:
                            W[key] = rng.choice([1, 2, 0.5, 3.25, -1, 0.1 + 0.2, 123456789.25]) if weighted else 1
                        row.append((rng.choice(["%s", "%.2f"]) if float("%.2f" % W[key]) == W[key] else "%r") % W[key])
                    else:
                        row.append(rng.choice(["0", "0", "0.0"]))
                rows.append(row)
            M.append(rows)
        for l in range(nm):
            if any((M[l][r][c] in ("0", "0.0")) != (M[l][c][r] in ("0", "0.0")) for r in range(n) for c in range(n)):
                cx.count("asymmetric")
                break
        # text
        L = []
        N = rng.choice(["n=%d", "N = %d", "N=%d ", " n = %d"]) % n
        if nm > 1 or rng.random() < 0.2:
            N += rng.choice([" nm=%d", " NM = %d", "\tNm= %d"]) % nm
        dl = rng.choice(["DL", "dl", "Dl"])
        if rng.random() < 0.4:
            L += [dl + rng.choice(["", " ", "  "]), N]
        else:
            L.append(dl + " " + N)
        opts = []
        if rng.random() < 0.5:
            opts.append([rng.choice(["format = fullmatrix", "FORMAT=FULLMATRIX", "format = fullmatrix diagonal present ", " Format = FullMatrix"])])

        def labels(tag, ls):
            out, i = [tag], 0
            while i < len(ls):
                k = rng.choice([1, 2, 3, len(ls)])
                out.append(rng.choice([",", ", ", " ,"]).join(str(x) for x in ls[i:i + k]))
                i += k
            return out

        case = lambda s: rng.choice([s, s.upper(), s.capitalize()])
        if mode == "labels":
            opts.append(labels(case("labels:"), R))
        if mode in ("rows+columns", "labels+rows", "rows"):
            opts.append(labels(case("row labels:"), R))
        if mode in ("rows+columns", "columns", "labels+columns"):
            opts.append(labels(case("column labels:"), C))
        if mode in ("labels+rows", "labels+columns"):
            opts.append(labels(case("labels:"), C if mode == "labels+rows" else R))
        if mode == "embedded":
            opts.append([case("labels embedded")])
            cx.count("embedded")
        elif mode != "none":
            cx.count("labels")
        if with_levels:
            opts.append(labels(case("level labels:"), levels if nm > 1 else level_names))
        rng.shuffle(opts)
        for o in opts:
            L += o
        L.append(case("data:"))
        if mode == "embedded":
            L.append(" ".join(case(x) for x in C))
        wrap = rng.random() < 0.3
        for rows in M:
            for r, row in enumerate(rows):
                f = ([case(R[r])] if mode == "embedded" else []) + row
                if wrap and len(f) > 1 and rng.random() < 0.5:
                    k = rng.randint(1, len(f) - 1)
                    cx.count("wrapped")
                    L += [" ".join(f[:k]), "  " + "\t".join(f[k:])]
                else:
                    L.append(rng.choice(["", " "]) + rng.choice([" ", "  ", "\t"]).join(f) + rng.choice(["", " "]))
        text = "\n".join(L)
        cx.log(text)
        cx.sample(text)
        coup = rng.choice([("categorical", 1.0), ("ordinal", 1.0)]) if all(isinstance(x, int) for x in levels) else ("categorical", 0.5)
        net = self.read(rng, cx, text, full, coup)
        cx.count("files")
        # expectation
        allnodes = set(R) | set(C)
        if nm == 1:
            cx.eq("dl:kind", (type(net).__name__, net.aspects), ("MultilayerNetwork", 0), "kind of network")
            want = {k[1]: w for k, w in W.items()}
            ns = allnodes if full else {x for k in want for x in k}
            cx.eq("dl:nodes", (set(net), len(list(net))), (ns, len(ns)), "nodes")
            es = list(net.edges)
            cx.eq("dl:links", {frozenset(e[:2]): e[2] for e in es}, want, "links")
            cx.eq("dl:once", len(es), len(want), "links listed")
            if ns != {x for k in want for x in k}:
                cx.count("isolates")
        else:
            cx.count("multiplex")
            cx.eq("dl:kind", (type(net).__name__, net.aspects, bool(net.fullyInterconnected), [tuple(c) for c in net.couplings]),
                  ("MultiplexNetwork", 1, full, [coup]), "kind of network")
            cx.eq("dl:layers", set(net.iter_layers()), set(levels), "layers")
            for l in levels:
                want = {k[1]: w for k, w in W.items() if k[0] == l}
                used = {x for k in want for x in k}
                ns = allnodes if full else used
                a = net.A[l]
                cx.eq("dl:nodes", (set(a), len(list(a))), (ns, len(ns)), "nodes of layer %r" % (l,))
                es = list(a.edges)
                cx.eq("dl:links", {frozenset(e[:2]): e[2] for e in es}, want, "links of layer %r" % (l,))
                cx.eq("dl:once", len(es), len(want), "links listed")
                if used != allnodes:
                    cx.count("isolates")
            if full:
                cx.eq("dl:all-nodes", set(net), allnodes, "nodes")
        cx.eq("dl:directed", bool(net.directed), False)
        if W:
            cx.key(text, full)
        if i % 8 == 0:
            self.malformed(rng, cx, L, n, nm, mode)

    def read(self, rng, cx, text, full, coup):
        f = self.pm.read_ucinet
        kw = dict(couplings=coup, fullyInterconnected=full)
        how = rng.choice(["list", "lines", "generator", "path", "file", "stringio"])
        cx.log(how, kw)
        text = text + rng.choice(["", "\n", "\n\n", "\n  \n"]) if how != "list" else text
        if how == "list":
            return f(text.split("\n"), **kw)
        if how == "lines":
            return f(text.splitlines(True), **kw)
        if how == "generator":
            return f((l for l in text.split("\n")), **kw)
        if how == "stringio":
            return f(io.StringIO(text), **kw)
        with Scratch() as d:
            p = os.path.join(d, "net.dl")
            with open(p, "w") as o:
                o.write(text)
            if how == "path":
                return f(p, **kw)
            with open(p) as o:
                return f(o, **kw)

    def malformed(self, rng, cx, L, n, nm, mode):
        f = self.pm.read_ucinet
        bad = [["xx" + L[0]] + L[1:], [], [l for l in L if not l.lower().startswith("data")],
               L[:-1] if n > 1 or nm > 1 else ["dl n=1"], ["DL"] + L[1:] if "=" in L[0] else [L[0]] + L[2:],
               [L[0]] + (["N=%d NM=%d" % (n, nm)] if "=" not in L[0] else []) + ["format = edgelist1", "data:", "1 2", "2 1"],
               [L[0]] + (["N=%d NM=%d" % (n, nm)] if "=" not in L[0] else []) + ["format = upperhalf", "data:"] + ["0 " * n] * (n * nm),
               [L[0]] + (["N=%d NM=%d" % (n, nm)] if "=" not in L[0] else []) + ["no such command", "data:"] + ["0 " * n] * (n * nm),
               [L[0]] + (["N=%d NM=%d" % (n, nm)] if "=" not in L[0] else []) + ["data:"] + ["0 " * n] * (n * nm + 1),
               [L[0]] + (["N=%d NM=%d" % (n, nm)] if "=" not in L[0] else []) + ["data:"] + ["0 " * (n + 1)] * (n * nm),
               ["DL N=2 NM=2 K=2", "data:"] + ["0 1", "1 0"] * 4,
               ["DL N=2", "labels embedded", "labels:", "a,b", "data:", "a b", "a 0 1", "b 1 0"],
               ["DL N=2", "labels embedded", "row labels:", "a,b", "data:", "a b", "a 0 1", "b 1 0"],
               ["DL N=2", "labels embedded", "column labels:", "a,b", "data:", "a b", "a 0 1", "b 1 0"],
               ["DL N=2", "embedded labels", "data:", "a b", "a 0 1", "b 1 0"],
               ["DL N=2", "labels embedded", "data:", "a b c", "a 0 1", "b 1 0"], ["DL N=2", "labels embedded", "data:", "a", "a 0 1", "b 1 0"],
               ["DL N=2", "labels embedded", "data:", "a b", "0 1", "1 0"], ["DL N=2", "data:", "0 x", "1 0"],
               ["## N=2", "data:", "0 1", "1 0"], ["DX N=2", "data:", "0 1", "1 0"], ["DL K=2", "data:", "0 1", "1 0"], ["DL", "data:", "0 1", "1 0"],
               ["DL N=2 K=1", "data:", "0 1", "1 0"], ["DL N=-2", "data:", "0 1", "1 0"], ["DL N=2 NM=-1", "data:", "0 1", "1 0"],
               ["DL N=2.0", "data:", "0 1", "1 0"], ["DL N=2"], ["DL"], ["DL N=2", "0 1", "1 0"], ["DL N=2", "format", "data:", "0 1", "1 0"],
               ["DL N=2", "format = fullmatrix = x", "data:", "0 1", "1 0"], ["DL N=2 NM=2", "data:", "0 1", "1 0"],
               ["DL N=2", "data:", "0 1", "1 0", "0"], ["DL N=2", "data:", "0 1 1", "0"], ["DL N=2", "labels:", "a,b,c", "data:", "0 1", "1 0"],
               ["DL N=2", "labels:", "a", "data:", "0 1", "1 0"], ["DL N=2 NM=2", "level labels:", "a", "data:"] + ["0 1", "1 0"] * 2,
               ["DL N=2", "labels:", "a,b", "row labels:", "a,b", "column labels:", "a,b", "data:", "0 1", "1 0"]]
        for b in rng.sample(bad, 3):
            cx.log("malformed", b)
            cx.count("rejected")
            cx.raises("dl:malformed", Exception, f, list(b))


def one_aspect(rng, full=None, directed=None, aligned=False, **kw):
    kw.setdefault("wkind", rng.choice(["unit", "int", "float", "signed", "digits"]))
    kw.setdefault("noEdge", gen.no_edge(rng))
    ref = gen.multiplex(rng, aspects=1, directed=directed, full=full, sortable=False, **kw)
    return ref


class Json(core.Check):
    id = "C27"
    quick, thorough = 4000, 50000
    files = ["pymnet/netio.py", "pymnet/visuals/webplots.py"]
    minima = {"documents": 3000, "files": 800, "pages": 1000, "special_names": 500, "links": 5000}
    rule = ("case: random one-aspect multiplex network with names that survive JSON (strings including quotes, backslashes, "
            "markup and non-ASCII, integers); the JSON document (returned, written to a path or file object, and embedded in the "
            "web page, decoded as the browser would) lists each node and layer once and each intra-layer link once with its "
            "weight. Non-trivial: at least one link; distinct by network")

    NAMES = ["a", "b", "O'Brien", 'say "hi"', "back\\slash", "</script>", "\u00e4\u2603", "x y", "", "@netjson", "tab\there", "{1}", "'", "\\'", "%s"]

    def case(self, rng, cx, i):
        pm = self.pm
        ref = one_aspect(rng, mixed=False)
        if rng.random() < 0.5 and max(len(ref.nodes), len(ref.layers[0])) <= len(self.NAMES):
            cx.count("special_names")
            ns = sorted(ref.nodes, key=repr)
            m = dict(zip(ns, rng.sample(self.NAMES, len(ns))))
            if all(c[0] in ("categorical", "none") for c in ref.couplings):
                ls = sorted(ref.layers[0], key=repr)
                lm = dict(zip(ls, rng.sample(self.NAMES, len(ls))))
            else:
                lm = {l: l for l in ref.layers[0]}
            ren = lambda x: (m[x[0]], lm[x[1]])
            r = Ref(1, ref.directed, ref.noEdge, ref.full, ref.couplings)
            r.nodes, r.layers = set(m.values()), [set(lm.values())]
            r.nls = {ren(x) for x in ref.nls}
            r.w = {(ren(a), ren(b)): w for (a, b), w in ref.w.items()}
            ref = r
        net = model.build(pm, ref, gen.shuffled(rng, ref.w))
        cx.log(gen.describe(ref))
        cx.sample(gen.describe(ref))
        want = {}
        for (a, b), w in ref.w.items():
            want[(a[1], (a[0], b[0]) if ref.directed else frozenset((a[0], b[0])))] = w
        self.doc(cx, pm.netio.write_json(net), ref, want)
        if rng.random() < 0.5:
            cx.count("files")
            with Scratch() as d:
                p = os.path.join(d, "net.json")
                if rng.random() < 0.5:
                    r = pm.netio.write_json(net, p)
                else:
                    r = pm.netio.write_json(net, open(p, "w"))
                cx.eq("json:returns", r, None)
                self.doc(cx, open(p).read(), ref, want)
        page = pm.webplot(net)
        self.page(cx, page, ref, want)
        if rng.random() < 0.3:
            with Scratch() as d:
                p = os.path.join(d, "net.html")
                r = pm.webplot(net, outputfile=p) if rng.random() < 0.5 else pm.webplot(net, open(p, "w"))
                cx.eq("webplot:returns", r, None)
                t = open(p).read()
                cx.true("webplot:file", page in t and t.lower().startswith("<html"), "the page written to a file differs from the one returned")
        model.compare(cx, net, ref, "network-changed", rng=rng, maxpairs=50)
        if want:
            cx.key(gen.sig(ref))

    def page(self, cx, page, ref, want):
        cx.count("pages")
        mark = "JSON.parse('"
        i = page.index(mark) + len(mark)
        out = []
        while page[i] != "'":          # a single-quoted javascript string literal
            c = page[i]
            if c == "\\":
                i += 1
                e = page[i]
                if e == "u":
                    out.append(chr(int(page[i + 1:i + 5], 16)))
                    i += 4
                elif e == "x":
                    out.append(chr(int(page[i + 1:i + 3], 16)))
                    i += 2
                else:
                    out.append({"n": "\n", "t": "\t", "r": "\r", "b": "\b", "f": "\f", "v": "\v", "0": "\0"}.get(e, e))
            else:
                cx.true("webplot:newline", c != "\n", "line break inside the string")
                out.append(c)
            i += 1
        cx.true("webplot:closed", page[i:i + 3] == "');", "embedded data ends early: %r" % page[i:i + 30])
        cx.eq("webplot:one-script", (page.count("</script"), page.count("JSON.parse('")), (2, 1), "script tags")
        s = "".join(out)
        try:
            json.loads(s)
        except ValueError as e:
            cx.fail("webplot:json", "the data embedded in the page is not JSON after decoding the string: %s" % e, data=s)
        self.doc(cx, s, ref, want)

    def doc(self, cx, text, ref, want):
        cx.count("documents")
        d = json.loads(text)
        nodes = [x["name"] for x in d["nodes"]]
        layers = [x["name"] for x in d["layers"]]
        cx.eq("json:nodes", (sorted(nodes, key=repr)), sorted(ref.nodes, key=repr), "node names")
        cx.eq("json:layers", (sorted(layers, key=repr)), sorted(ref.layers[0], key=repr), "layer names")
        got = []
        for l in d["links"]:
            a, b = nodes[l["source"]], nodes[l["target"]]
            got.append(((layers[l["layer"]], (a, b) if ref.directed else frozenset((a, b))), l["value"]))
        cx.count("links", len(got))
        cx.eq("json:once", len(got), len(want), "number of links")
        cx.eq("json:links", dict(got), want, "links")


class EdgeFiles(core.Check):
    id = "C28"
    quick, thorough = 4000, 50000
    files = ["pymnet/netio.py"]
    minima = {"written": 1500, "read": 1500, "links": 4000, "numeric": 500, "master": 500, "self_links": 200, "nonfull": 500}
    rule = ("case: random one-aspect multiplex network written as edge files (separators, weights, numeric names, master file) "
            "and parsed back independently, or a random multiplex edge list read from a path, file object or list, with "
            "self-links ignored; links, weights, layers and files are compared. Non-trivial: at least one link; distinct by "
            "content")

    def case(self, rng, cx, i):
        (self.write if i % 2 else self.read)(rng, cx)

    def write(self, rng, cx):
        pm = self.pm
        ref = one_aspect(rng, mixed=False)
        net = model.build(pm, ref, gen.shuffled(rng, ref.w))
        cx.log(gen.describe(ref))
        kw = {}
        col, row = "\t", "\n"
        if rng.random() < 0.3:
            col = kw["columnSeparator"] = rng.choice([";", "|", " ; "])
        if rng.random() < 0.2:
            row = kw["rowSeparator"] = rng.choice(["\n\n", "#\n"])
        weights = numeric = master = None
        if rng.random() < 0.5:
            weights = kw["weights"] = rng.random() < 0.5
        if rng.random() < 0.5:
            numeric = kw["numericNodes"] = rng.random() < 0.7
        if rng.random() < 0.5:
            master = kw["masterFile"] = rng.random() < 0.8
        weights = weights is not False
        cx.log(kw)
        cx.count("written")
        order = list(net)
        with Scratch() as d:
            base = os.path.join(d, "out")
            cx.eq("edg:returns", pm.netio.write_edge_files(net, base, **kw), None)
            want_files = {"out%s.edg" % l: l for l in ref.layers[0]}
            files = set(os.listdir(d))
            cx.eq("edg:files", files, set(want_files) | ({"out.txt"} if master else set()), "files written")
            if master:
                cx.count("master")
                t = [l for l in open(os.path.join(d, "out.txt")).read().split("\n") if l]
                cx.eq("edg:master", sorted(t), sorted("%s;%s;" % (f, l) for f, l in want_files.items()), "master file")
            names = {}
            for k, x in enumerate(order):
                names[str(k) if numeric else str(x)] = x
            if numeric:
                cx.count("numeric")
            for f, l in want_files.items():
                t = open(os.path.join(d, f)).read()
                rows = t.split(row)
                cx.eq("edg:end", rows[-1], "", "end of file")
                got = []
                for r in rows[:-1]:
                    p = r.split(col)
                    cx.eq("edg:columns", len(p), 3 if weights else 2, "columns in %r" % r)
                    cx.true("edg:name", p[0] in names and p[1] in names, "names in %r" % r)
                    a, b = names[p[0]], names[p[1]]
                    got.append(((a, b) if ref.directed else frozenset((a, b)), float(p[2]) if weights else None))
                want = {}
                for (a, b), w in ref.w.items():
                    if a[1] == l:
                        want[(a[0], b[0]) if ref.directed else frozenset((a[0], b[0]))] = float(w) if weights else None
                cx.count("links", len(got))
                cx.eq("edg:once", len(got), len(want), "links in layer %r" % (l,))
                cx.eq("edg:links", dict(got), want, "links in layer %r" % (l,))
        model.compare(cx, net, ref, "network-changed", rng=rng, maxpairs=50)
        if ref.w:
            cx.key("w", gen.sig(ref), kw)

    def read(self, rng, cx):
        pm = self.pm
        cx.count("read")
        full, directed = rng.random() < 0.6, rng.random() < 0.5
        coup = rng.choice(["categorical", ("categorical", 0.5), "none", "ordinal"])
        if not full:
            cx.count("nonfull")
        kw = dict(fullyInterconnected=full, directed=directed)
        if coup != "categorical" or rng.random() < 0.5:
            kw["couplings"] = coup
        ref = Ref(1, directed, 0, full)
        lines = []
        n = rng.choice([1, 2, 4, 8, 20])
        for _ in range(rng.choice([0, 1, 3, 8, 20, 60])):
            l, a, b = rng.randint(0, 3), rng.randint(0, n), rng.randint(0, n)
            w = rng.choice(["1", "2.5", "1.0", "-3", "1e3", "0.125", "0.30000000000000004", "123456789.25", "1e-17"])
            if rng.random() < 0.05:
                a += 10 ** 12
            lines.append("%d%s%d %d%s%s" % (l, rng.choice([" ", "\t"]), a, b, rng.choice([" ", "\t"]), w))
            if a == b:
                cx.count("self_links")
            else:
                ref.set((a, l), (b, l), float(w))
        text = "".join(l + "\n" for l in lines)
        cx.log(text, kw)
        how = rng.choice(["path", "file", "list"])
        if how == "list":
            net = pm.netio.read_edge_files(lines, **kw)
        else:
            with Scratch() as d:
                p = os.path.join(d, "net.edges")
                with open(p, "w") as o:
                    o.write(text)
                if how == "path":
                    net = pm.netio.read_edge_files(p, **kw)
                else:
                    with open(p) as o:
                        net = pm.netio.read_edge_files(o, **kw)
        name = coup if isinstance(coup, str) else coup[0]
        ref.couplings = [("none",) if name == "none" else (name, 1.0 if isinstance(coup, str) else coup[1])]
        cx.eq("edges:kind", type(net).__name__, "MultiplexNetwork")
        model.compare(cx, net, ref, "edges", rng=rng, maxpairs=1500)
        cx.count("links", len(ref.w))
        if ref.w:
            cx.key("r", gen.sig(ref))
