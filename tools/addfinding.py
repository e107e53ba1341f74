"""addfinding.py ID PROPERTY COMMIT-SUBJECT-PART WHAT: records a fixed finding."""
import json, subprocess, sys
f = json.load(open("known-findings.json"))
i, p, c, w = sys.argv[1:]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
h = [l.split()[0] for l in log if c in l]
assert len(h) == 1, h
f.append(dict(id=i, property=p, status="fixed", sig="", scenario="", what=f"fixed: property={p} {h[0]} {w}"))
json.dump(f, open("known-findings.json", "w"), indent=1)
