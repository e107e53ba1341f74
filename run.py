#!/usr/bin/env python3
"""Driver of the checks: rebuilds the harness against /repo's working tree, runs a property's scenarios, and turns
what the monitors recorded into a verdict and an evidence file.

  run.py check P01 [quick|thorough]     (tier from VERIF_TIER if absent, seed from VERIF_SEED)
  run.py setup
  run.py replay FILE                    (a replay file named by a VIOLATION line)
"""
import fcntl
import json
import os
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "build")
sys.path.insert(0, V)
import props  # noqa: E402


def env(extra_flags="", target="target"):
    e = dict(os.environ)
    e.update(
        HOME="/root",
        PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="1",
        CARGO_TARGET_DIR=os.path.join(B, target),
        RUSTFLAGS=("--cfg pushcdn_verif " + extra_flags).strip(),
        RUSTC_WRAPPER="",
        CARGO_PROFILE_DEV_DEBUG="0",
    )
    return e


def workspace():
    os.makedirs(B, exist_ok=True)
    subprocess.run([sys.executable, os.path.join(V, "tools/mkws.py")], check=True)


def cargo(args, e, log, toolchain=None):
    cmd = ["cargo"] + ([f"+{toolchain}"] if toolchain else []) + args
    if toolchain:
        e = dict(e)
        e.pop("RUSTUP_TOOLCHAIN", None)
    with open(log, "w") as f:
        r = subprocess.run(cmd, cwd=os.path.join(V, "harness"), env=e, stdout=f, stderr=subprocess.STDOUT)
    return r.returncode == 0


def build(bins):
    workspace()
    args = ["build", "--offline"]
    for b in bins:
        args += ["--bin", b]
    log = os.path.join(B, f"build-{'-'.join(bins)}.log")
    if not cargo(args, env(), log):
        print(open(log).read()[-6000:])
        return False
    return True


class Lock:
    def __enter__(self):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def known():
    with open(os.path.join(V, "known-findings.json")) as f:
        return [k for k in json.load(f) if k.get("status") == "known"]


def run_bin(engine, pid, tier, seed, budget, extra):
    out = os.path.join(B, f"out-{engine}-{pid}.json")
    if os.path.exists(out):
        os.unlink(out)
    binary = os.path.join(B, "target/debug", engine)
    cmd = [binary, "check", pid, tier, str(seed), str(budget), out]
    e = dict(os.environ)
    e.pop("RUST_LOG", None)
    e.update(extra)
    limit = budget * 3 + 300
    try:
        r = subprocess.run(cmd, cwd=B, env=e, timeout=limit, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired:
        return None, f"{engine}: no answer within {limit} s"
    text = r.stdout.decode(errors="replace")
    if not os.path.exists(out):
        return None, f"{engine}: exit {r.returncode}, no result\n{text[-3000:]}"
    with open(out) as f:
        return json.load(f), text


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = props.CHECKS[pid]
    engines = p["engines"]
    with Lock():
        if not build([e["bin"] for e in engines]):
            print(f"ERROR property={pid} the harness does not build against this tree")
            return 2
    merged = {"violations": [], "cov": {}, "distinct": 0, "samples": [], "inconclusive": [], "n_inconclusive": 0,
              "runs": {}}
    errors = []
    for eng in engines:
        budget = eng.get(tier, {"quick": 20, "thorough": 600}[tier])
        res, text = run_bin(eng["bin"], pid, tier, seed, budget, eng.get("env", {}))
        if res is None:
            errors.append(text)
            continue
        for v in res["violations"]:
            v["bin"] = eng["bin"]
        for k in ("violations", "samples", "inconclusive"):
            merged[k] += res[k]
        for k in ("cov", "runs"):
            for n, c in res[k].items():
                merged[k][n] = merged[k].get(n, 0) + c
        merged["distinct"] += res["distinct"]
        merged["n_inconclusive"] += res["n_inconclusive"]
    notes = []
    if tier == "thorough":
        for extra in p.get("extra", []):
            import extras
            extras.run_extra(extra, pid, seed, merged, errors, notes)

    ks = [k for k in known() if k["property"] == pid]
    new, seen = [], {}
    for v in merged["violations"]:
        k = next((k for k in ks if k["sig"] == v["sig"] and k["scenario"] == v["scenario"]), None)
        if k:
            seen[k["id"]] = k
        else:
            new.append(v)
    for k in seen.values():
        print(f"KNOWN-FINDING: property={pid} {k['id']}: {k['what']}")
    total = sum(merged["runs"].values())
    starved = [g for g in p.get("must_observe", []) if not merged["cov"].get(g)]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": p["level"],
        "coverage": {
            "evaluations": merged["cov"].get("oracle_evaluations", 0),
            "distinct_nontrivial": merged["distinct"],
            "rule": p["rule"],
            "samples": merged["samples"][:12],
            "runs": merged["runs"],
            "observed": merged["cov"],
            "inconclusive_runs": merged["n_inconclusive"],
            "inconclusive": merged["inconclusive"][:20],
            "notes": notes,
        },
        "assumptions": p.get("assumptions", []) + props.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {tier}: {total} runs, {ev['coverage']['evaluations']} oracle evaluations, "
          f"{merged['distinct']} distinct observations, {merged['n_inconclusive']} inconclusive, {ev['wall_s']} s")
    if new:
        rd = os.path.join(B, "replays")
        os.makedirs(rd, exist_ok=True)
        for v in new[:5]:
            path = os.path.join(rd, f"{pid}-{v['scenario']}-{v['seed']}.json")
            with open(path, "w") as f:
                json.dump(dict(v, property=pid), f, indent=1)
            print(f"  {v['scenario']}#{v['seed']}: {v['sig']}: {v['detail'][:600]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    for e in errors:
        print(f"ERROR property={pid} {e}")
    if errors:
        return 2
    if total == 0 or merged["n_inconclusive"] * 2 > total:
        print(f"ERROR property={pid} inconclusive: {merged['inconclusive'][:5]}")
        return 2
    if starved:
        print(f"ERROR property={pid} nothing observed of: {starved}")
        return 2
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        with Lock():
            bins = sorted({e["bin"] for p in props.CHECKS.values() for e in p["engines"]})
            return 0 if build(bins) else 2
    if a[:1] == ["check"]:
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        return check(a[1], "thorough" if tier == "thorough" else "quick")
    if a[:1] == ["replay"]:
        with open(a[1]) as f:
            v = json.load(f)
        with Lock():
            if not build([v["bin"]]):
                return 2
        out = os.path.join(B, "out-replay.json")
        subprocess.run([os.path.join(B, "target/debug", v["bin"]), "replay", v["property"], v["scenario"],
                        str(v["seed"]), out], cwd=B, check=True)
        with open(out) as f:
            res = json.load(f)
        for x in res["violations"]:
            print("\n".join(x["trace"]))
            print(f"{x['sig']}: {x['detail']}")
        return 1 if res["violations"] else 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
