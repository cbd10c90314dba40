import importlib, os, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from lib import core


def find(pid):
    for name in sorted(os.listdir(os.path.join(VERIF, "checks"))):
        if name.endswith(".py") and not name.startswith("_"):
            mod = importlib.import_module("checks." + name[:-3])
            for v in vars(mod).values():
                if isinstance(v, type) and issubclass(v, core.Check) and v.id == pid:
                    return v()
    raise SystemExit(2)


def main(argv):
    sys.path.insert(0, core.REPO)
    sys.setrecursionlimit(5000)
    chk = find(argv[0])
    if len(argv) > 2 and argv[1] == "--replay":
        return core.replay(chk, argv[2])
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 2 and argv[1] == "--case":
        chk.setup(core.load_pymnet(chk))
        cx = core.Cx()
        r = core.run_case(chk, seed, int(argv[2]), cx)
        print(r[:2] if r else None)
        if r:
            print("\n".join(r[3]))
            print(r[2].get("traceback", r[2]) if r[2] else "")
        return 0
    return core.run(chk, seed, "thorough" if tier == "thorough" else "quick",
                    int(os.environ.get("VERIF_JOBS", "0")) or None)


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
