"""Monitoring framework: runs cases of a property check against the real code of /repo, watches
them with oracles, and turns what was observed into a verdict, an evidence file and a replay file.

Verdicts:  0 held on what was observed, 1 violated (VIOLATION line), 2 inconclusive.
"""
from lib import warm
import contextlib, hashlib, json, multiprocessing, os, random, signal, sys, time, traceback, types

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")


class Violation(Exception):
    """The oracle observed something the property forbids. `mech` names the mechanism."""

    def __init__(self, mech, msg, witness=None):
        Exception.__init__(self, mech, msg, witness)
        self.mech, self.msg, self.witness = mech, msg, witness

    def __reduce__(self):
        return (Violation, (self.mech, self.msg, self.witness))


class StepBudget(BaseException):
    """The code under test executed more loop iterations in one case than any correct run needs."""


class CaseTimeout(BaseException):
    """Wall clock watchdog of one case: inconclusive, never a violation."""


# ---------------------------------------------------------------- instrumentation of the real code
class Instr(object):
    """sys.monitoring hooks on every code object of pymnet: which lines were reached while the
    monitors were watching, and a logical clock (backward jumps) that bounds every case."""
    TOOL = 4

    def __init__(self):
        self.lines = set()
        self.steps = 0
        self.limit = 10 ** 12
        self.codes = []

    def install(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "verif")
        E = mon.events
        mon.register_callback(self.TOOL, E.LINE, self._line)
        mon.register_callback(self.TOOL, E.JUMP, self._jump)
        seen = set()

        def walk(code):
            if id(code) in seen or not code.co_filename.startswith(REPO + "/pymnet"):
                return
            seen.add(id(code))
            self.codes.append(code)
            mon.set_local_events(self.TOOL, code, E.LINE | E.JUMP)
            for c in code.co_consts:
                if isinstance(c, types.CodeType):
                    walk(c)

        def visit(obj, depth=0):
            if isinstance(obj, types.FunctionType):
                walk(obj.__code__)
                w = getattr(obj, "__wrapped__", None)
                if w is not None:
                    visit(w, depth)
                for cell in (obj.__closure__ or ()):
                    try:
                        if depth < 3:
                            visit(cell.cell_contents, depth + 1)
                    except ValueError:
                        pass
            elif isinstance(obj, (staticmethod, classmethod)):
                visit(obj.__func__, depth)
            elif isinstance(obj, property):
                for f in (obj.fget, obj.fset, obj.fdel):
                    if f is not None:
                        visit(f, depth)
            elif isinstance(obj, type) and str(getattr(obj, "__module__", "")).startswith("pymnet"):
                if id(obj) in seen:
                    return
                seen.add(id(obj))
                for v in list(vars(obj).values()):
                    visit(v, depth)

        for name, mod in list(sys.modules.items()):
            if (name == "pymnet" or name.startswith("pymnet.")) and mod is not None:
                for v in list(vars(mod).values()):
                    visit(v)

    def _line(self, code, line):
        self.lines.add((code.co_filename[len(REPO) + 1:], line))
        return sys.monitoring.DISABLE

    def _jump(self, code, src, dst):
        self.steps += 1
        if self.steps > self.limit:
            self.limit = 10 ** 12   # raise once
            raise StepBudget("%s:%d" % (code.co_filename, code.co_firstlineno))

    def total_lines(self):
        tot = {}
        for c in self.codes:
            f = c.co_filename[len(REPO) + 1:]
            s = tot.setdefault(f, set())
            for _, _, l in c.co_lines():
                if l and l != c.co_firstlineno:
                    s.add(l)
        return tot


INSTR = Instr()


def load_pymnet(chk=None):
    if chk is not None:
        chk.before_import()
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import pymnet
    assert os.path.realpath(os.path.dirname(pymnet.__file__)) == REPO + "/pymnet", pymnet.__file__
    import pymnet.net, pymnet.transforms, pymnet.cc, pymnet.diagnostics, pymnet.models, pymnet.netio
    import pymnet.nxwrap, pymnet.isomorphisms, pymnet.graphlets, pymnet.sampling
    import pymnet.sampling.reqs, pymnet.sampling.esu, pymnet.sampling.dumb, pymnet.sampling.creators
    import pymnet.visuals
    import pymnet.graphlets.graphlets, pymnet.graphlets.graphlet_measures
    import pymnet.graphlets.independent_equations
    INSTR.install()
    return pymnet


# ---------------------------------------------------------------- what a case gets
class Cx(object):
    def __init__(self):
        self.counters = {}
        self.keys = set()
        self.samples = []
        self.trace = []          # history of the running case, for the witness
        self.case_no = None

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def key(self, *what):
        """Registers the case as non-trivial, identified by its content."""
        h = hashlib.blake2b(repr(what).encode(), digest_size=8).digest()
        self.keys.add(h)

    def sample(self, what):
        if len(self.samples) < 3:
            self.samples.append(what)

    def log(self, *what):
        self.trace.append(what if len(what) != 1 else what[0])

    def fail(self, mech, msg, **wit):
        raise Violation(mech, msg, {k: _short(v) for k, v in wit.items()})

    def eq(self, mech, got, want, msg="", **wit):
        self.count("comparisons")
        if not same(got, want):
            self.fail(mech, "%s: got %s, expected %s" % (msg or mech, _short(got), _short(want)), **wit)

    def close(self, mech, got, want, msg="", tol=1e-9, **wit):
        self.count("comparisons")
        if not near(got, want, tol):
            self.fail(mech, "%s: got %s, expected %s" % (msg or mech, _short(got), _short(want)), **wit)

    def true(self, mech, cond, msg="", **wit):
        self.count("comparisons")
        if not cond:
            self.fail(mech, msg or mech, **wit)

    def raises(self, mech, excs, f, *a, **k):
        self.count("comparisons")
        try:
            r = f(*a, **k)
        except excs:
            return
        self.fail(mech, "expected %s, got result %s" % (excs, _short(r)))


def same(a, b):
    if a is b:
        return True
    try:
        return bool(a == b)
    except Exception:
        return False


def near(a, b, tol=1e-9):
    if a is None or b is None:
        return a is b
    if isinstance(a, dict) or isinstance(b, dict):
        return (isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b)
                and all(near(a[k], b[k], tol) for k in a))
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b)
                and all(near(x, y, tol) for x, y in zip(a, b)))
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return a == b
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    if abs(a) == float("inf") or abs(b) == float("inf"):
        return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def _short(v, n=600):
    try:
        s = repr(v)
    except Exception as e:
        s = "<repr failed: %r>" % (e,)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


# ---------------------------------------------------------------- checks
class Check(object):
    id = None
    level = "exploration"
    quick = 300            # cases
    thorough = 6000
    steps = 30000000       # loop iterations of the code under test allowed in one case
    case_seconds = 240     # watchdog of one case
    slow_ok = 0            # share of cases that may be skipped because of it (searches that are exponential by nature)
    minima = {}            # counter -> least value (quick) below which the run is inconclusive
    rule = ""
    assumptions = []
    files = []             # anchored files whose reached lines are reported

    def before_import(self):
        """Stand-ins for missing external modules, installed before pymnet is imported."""

    def setup(self, pm):
        self.pm = pm

    def case(self, rng, cx, i):
        raise NotImplementedError

    def probes(self):
        """Known findings: list of (mech, function(cx)). Each function raises Violation(mech) while
        the defect is there. Run once per check run."""
        return []


def case_rng(seed, pid, i):
    return random.Random("%s|%s|%s" % (seed, pid, i))


def _alarm(sig, frame):
    raise CaseTimeout()


def run_case(chk, seed, i, cx):
    """Returns None, or (mech, msg, witness, trace)."""
    import numpy
    rng = case_rng(seed, chk.id, i)
    cx.trace = []
    cx.case_no = i
    warm.start(chk.id, random.Random("%s|%s|%s|use" % (seed, chk.id, i)))
    used = warm.USED[0]
    INSTR.steps = 0
    INSTR.limit = chk.steps
    state = rng.getrandbits(32)
    random.seed(state)
    numpy.random.seed(state % (2 ** 32))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(chk.case_seconds)
    try:
        with quiet():
            chk.case(rng, cx, i)
        cx.count("cases")
        if warm.USED[0] > used:
            cx.count("networks_used_while_built", warm.USED[0] - used)
        return None
    except Violation as v:
        return (v.mech, v.msg, v.witness, _trace(cx))
    except StepBudget as v:
        return ("no-termination", "more than %d loop iterations in one case, at %s" % (chk.steps, v),
                None, _trace(cx))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if f.filename.startswith(REPO)]
        where = inside[-1] if inside else tb[-1]
        mech = "exception:%s" % type(e).__name__ if inside else "malformed-result:%s" % type(e).__name__
        msg = "%s: %s at %s (%s)" % (type(e).__name__, _short(str(e)), where.name,
                                     os.path.basename(where.filename))
        return (mech, msg, {"traceback": traceback.format_exc()[-3000:]}, _trace(cx))
    finally:
        signal.alarm(0)
        INSTR.limit = 10 ** 12


def _trace(cx):
    return [_short(t, 2000) for t in cx.trace[-200:]]


@contextlib.contextmanager
def quiet():
    old = sys.stdout
    sys.stdout = _NULL
    try:
        yield
    finally:
        sys.stdout = old


class _Null(object):
    def write(self, s):
        return len(s)

    def flush(self):
        pass


_NULL = _Null()


_CHK = None


def _worker(args):
    seed, idx, deadline = args
    chk = _CHK
    cx = Cx()
    viols, incon, slow, maxsteps = [], [], [], 0
    steps_total = 0
    for i in idx:
        if time.monotonic() > deadline:
            incon.append("deadline reached before case %d" % i)
            break
        try:
            r = run_case(chk, seed, i, cx)
        except CaseTimeout:
            slow.append("case %d: watchdog of %d s" % (i, chk.case_seconds))
            continue
        except MemoryError:
            incon.append("case %d: out of memory" % i)
            break
        maxsteps = max(maxsteps, INSTR.steps)
        steps_total += INSTR.steps
        if r is not None:
            viols.append((i,) + r)
            if len(viols) >= 3:
                break
    return (cx.counters, cx.keys, cx.samples, viols, incon, slow, maxsteps, steps_total, INSTR.lines)


def run(chk, seed, tier, jobs=None):
    t0 = time.monotonic()
    n = chk.quick if tier == "quick" else chk.thorough
    limit = 800 if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", "3000"))
    deadline = t0 + limit
    jobs = jobs or min(8, os.cpu_count() or 1)
    pm = load_pymnet(chk)
    chk.setup(pm)
    chunk = max(1, min(50, n // (jobs * 4) or 1))
    tasks = [(seed, list(range(a, min(n, a + chunk))), deadline) for a in range(0, n, chunk)]
    tot, keys, samples, viols, incon, slow = {}, set(), [], [], [], []
    maxsteps = steps_total = 0
    lines = set()
    global _CHK
    _CHK = chk
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(jobs) as pool:
        it = pool.imap_unordered(_worker, tasks)
        got = 0
        while got < len(tasks):
            try:
                r = it.next(timeout=max(1.0, deadline + chk.case_seconds + 20 - time.monotonic()))
            except multiprocessing.TimeoutError:
                incon.append("a worker did not report in time")
                pool.terminate()
                break
            got += 1
            c, k, s, v, inc, sl, ms, st, ln = r
            for a, b in c.items():
                tot[a] = tot.get(a, 0) + b
            keys |= k
            samples += s
            viols += v
            incon += inc
            slow += sl
            maxsteps = max(maxsteps, ms)
            steps_total += st
            lines |= ln
            if len(viols) >= 5:
                pool.terminate()
                break
    if len(slow) > chk.slow_ok * n:
        incon += slow
    # probes of known findings
    known = load_known(chk.id)
    probe_lines = []
    pcx = Cx()
    for mech, f in chk.probes():
        try:
            with quiet():
                f(pcx)
        except Violation as v:
            viols.append(("probe", v.mech, v.msg, v.witness, []))
        except StepBudget:
            raise
        except Exception as e:
            viols.append(("probe", "probe:%s:%s" % (mech, type(e).__name__), str(e),
                          {"traceback": traceback.format_exc()[-3000:]}, []))
        lines |= INSTR.lines
    for a, b in pcx.counters.items():
        tot["probe_" + a] = tot.get("probe_" + a, 0) + b
    real, seen_known = [], {}
    for v in sorted(viols, key=lambda v: (str(type(v[0])), v[0] if isinstance(v[0], int) else -1)):
        if v[1] in known:
            seen_known[v[1]] = seen_known.get(v[1], 0) + 1
        else:
            real.append(v)
    for mech in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (chk.id, known[mech]["what"]))
    mins = {k: (v if tier == "quick" else v) for k, v in chk.minima.items()}
    if not real:
        for k, v in mins.items():
            if tot.get(k, 0) < v:
                incon.append("monitor under-exercised: %s=%d < %d" % (k, tot.get(k, 0), v))
    samples = sorted(samples, key=repr)[:3]
    reach = {}
    tl = INSTR.total_lines()
    for f in chk.files:
        for g in tl:
            if g == f:
                reach[f] = "%d of %d executable lines reached" % (
                    len([1 for (a, l) in lines if a == g and l in tl[g]]), len(tl[g]))
    cov = {"evaluations": tot.get("cases", 0), "distinct_nontrivial": len(keys), "rule": chk.rule,
           "samples": samples, "observed": dict(sorted(tot.items())), "source_lines": reach,
           "loop_iterations_of_code_under_test": steps_total, "largest_case_iterations": maxsteps,
           "known_findings_seen": seen_known, "inconclusive": incon[:10], "skipped_slow_cases": slow[:10]}
    ev = {"property": chk.id, "tier": tier, "seed": seed, "level": chk.level, "coverage": cov,
          "assumptions": chk.assumptions, "wall_s": round(time.monotonic() - t0, 2),
          "violations": len(real)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, chk.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=_short)
    if real:
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        path = os.path.join(EVID, "replays", "%s.json" % chk.id)
        with open(path, "w") as f:
            json.dump({"property": chk.id, "seed": seed, "tier": tier,
                       "replay_cmd": "bash /verif/run.sh %s --replay %s" % (chk.id, path),
                       "violations": [{"case": v[0], "mechanism": v[1], "what": v[2],
                                       "witness": v[3], "history": v[4]} for v in real[:5]]},
                      f, indent=1, default=_short)
        for v in real[:3]:
            print("  case %s [%s] %s" % (v[0], v[1], v[2]))
        print("VIOLATION property=%s replay=%s" % (chk.id, path))
        return 1
    if incon:
        for s in incon[:5]:
            print("INCONCLUSIVE property=%s %s" % (chk.id, s))
        return 2
    print("HELD property=%s tier=%s seed=%d cases=%d distinct=%d comparisons=%d wall=%.1fs" % (
        chk.id, tier, seed, tot.get("cases", 0), len(keys), tot.get("comparisons", 0),
        time.monotonic() - t0))
    return 0


def replay(chk, path):
    with open(path) as f:
        r = json.load(f)
    pm = load_pymnet(chk)
    chk.setup(pm)
    bad = 0
    for v in r["violations"]:
        cx = Cx()
        if v["case"] == "probe":
            continue
        res = run_case(chk, r["seed"], v["case"], cx)
        print("case %s: %s" % (v["case"], "no violation" if res is None else "[%s] %s" % res[:2]))
        if res is not None:
            bad = 1
            for t in res[3]:
                print("   ", t)
            if res[2]:
                for k, w in res[2].items():
                    print("   ", k, "=", w)
    return bad


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    out = {}
    if os.path.exists(path):
        with open(path) as f:
            for e in json.load(f)["findings"]:
                if e.get("property") == pid:
                    out[e["mechanism"]] = e
    return out
