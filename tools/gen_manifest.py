"""Writes /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in props.CHECKS:
        continue
    p = props.CHECKS[i]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 run.py check {i} quick",
        "thorough_cmd": f"python3 run.py check {i} thorough",
        "technique": p["technique"],
        "level": p["level"],
        "level_note": p["note"],
    })
na = [{"property": i, "reason": getattr(props, "NOT_APPLICABLE", {}).get(i, "check under construction")}
      for i in ids if i not in props.CHECKS]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in log.splitlines() if " verif hooks" in l]
m = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "hooks": {
        "guard": "cfg pushcdn_verif",
        "enable": "RUSTFLAGS=\"--cfg pushcdn_verif\" (run.py builds the harness, and with it /repo's crates, that way)",
        "source_commits": hooks,
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "run.py copies /repo's crates (less what needs the unavailable jf-signature dependency) to build/ws, "
             "builds harness/ against them and runs the property's scenarios. Replay a VIOLATION with "
             "python3 run.py replay FILE.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not claimed")
