"""Writes the "fixed" entries of known_findings.json from the fix commits of /repo (python3 tools/fixed.py)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = [  # first match on the subject wins
    ("undirected self-edge", "C01"), ("total degree of the target", "C02"), ("slices net", "C05"), ("comparing a non", "C08"),
    ("inherit noEdge", "C07"), ("strength of nodes raised", "C06"), ("couplings=None", "C06"), ("inter-layer links of uncoupled", "C06"),
    ("reading coupling edges", "C06"), ("coupling edges of non-fully", "C06"), ("couplings given as networks", "C06"),
    ("could not be copied", "C10"), ("supra-adjacency", "C09"), ("different hashes", "C08"), ("replaced intra-layer", "C07"),
    ("threshold", "C14"), ("subnet_iter", "C15"), ("relabel", "C13"), ("overlay_network", "C12"), ("aggregate", "C11"),
    ("overlap_degs", "C17"), ("density", "C17"), ("dijkstra", "C18"),
]
exec(open(os.path.join(ROOT, "tools", "fixed_more.py")).read())
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: ") and "random_nodelists" not in s:  # reverted
        pid = next((p for k, p in RULES if k in s), None)
        assert pid, s
        out.append("fixed: property=%s %s %s" % (pid, h, s[5:]))
path = os.path.join(ROOT, "known_findings.json")
d = json.load(open(path))
d["fixed"] = out
json.dump(d, open(path, "w"), indent=1)
print(len(out))
