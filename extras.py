"""Sanitized runs of a check's scenarios, for the thorough tier: the same harness, built by the nightly compiler with
AddressSanitizer or (with an instrumented standard library) ThreadSanitizer, runs the check's quick scenarios; a report of
the sanitizer is a violation.  And the codec under Miri."""
import json
import os
import re
import subprocess
import time

import run

TRIPLE = "x86_64-unknown-linux-gnu"
SAN = {
    "asan": dict(flags="-Zsanitizer=address", args=[], env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=66"},
                 report="AddressSanitizer"),
    "tsan": dict(flags="-Zsanitizer=thread", args=["-Zbuild-std"], env={"TSAN_OPTIONS": "exitcode=66:halt_on_error=0"},
                 report="WARNING: ThreadSanitizer"),
}


def violation(merged, kind, bin_, sig, detail):
    merged["violations"].append({"scenario": kind, "seed": 0, "sig": sig, "detail": detail, "trace": [], "bin": bin_})


def sanitized(kind, pid, seed, merged, errors, notes):
    san = SAN[kind]
    target = f"target-{kind}"
    e = run.env(san["flags"], target)
    e["CARGO_INCREMENTAL"] = "0"
    log = os.path.join(run.B, f"build-{kind}.log")
    with run.Lock():
        ok = run.cargo(["build", "--offline", "--bin", "sim", "--target", TRIPLE] + san["args"], e, log, "nightly")
    if not ok:
        errors.append(f"{kind}: does not build: {open(log).read()[-1500:]}")
        return
    binary = os.path.join(run.B, target, TRIPLE, "debug/sim")
    out = os.path.join(run.B, f"out-{kind}-{pid}.json")
    if os.path.exists(out):
        os.unlink(out)
    e = dict(os.environ, **san["env"])
    # Timings are not judged under a sanitizer by more than a check's own generous bounds; the budget is in seconds.
    t0 = time.time()
    try:
        r = subprocess.run([binary, "check", pid, "quick", str(seed), "300", out], cwd=run.B, env=e, timeout=1500,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired:
        errors.append(f"{kind}: no answer within 1500 s")
        return
    text = r.stdout.decode(errors="replace")
    if san["report"] in text:
        i = text.index(san["report"])
        sig = re.sub(r"0x[0-9a-f]+|==\d+==|pid=\d+", "", text[i:i + 100].split("\n")[0])
        violation(merged, kind, "sim", sig.strip(), text[i:i + 3000])
        return
    if not os.path.exists(out):
        errors.append(f"{kind}: exit {r.returncode}: {text[-1500:]}")
        return
    with open(out) as f:
        res = json.load(f)
    for v in res["violations"]:
        v["bin"] = "sim"
    merged["violations"] += res["violations"]
    notes.append(f"{kind}: {sum(res['runs'].values())} runs, {res['cov'].get('oracle_evaluations', 0)} oracle evaluations, "
                 f"no report, {time.time() - t0:.0f} s")


def miri(pid, seed, merged, errors, notes):
    d = os.path.join(run.V, "miri")
    e = run.env("", "target-miri")
    e.pop("RUSTUP_TOOLCHAIN", None)
    e["MIRIFLAGS"] = f"-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-seed={seed}"
    e["PCV_SEED"] = str(seed)
    t0 = time.time()
    try:
        r = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline"], cwd=d, env=e, timeout=3000,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired:
        errors.append("miri: no answer within 3000 s")
        return
    text = r.stdout.decode(errors="replace")
    m = re.search(r"MIRI-DONE (.*)", text)
    if r.returncode == 0 and m:
        notes.append(f"miri: {m[1]}, no report, {time.time() - t0:.0f} s")
    elif "Undefined Behavior" in text or "panicked" in text:
        i = text.find("Undefined Behavior")
        i = i if i >= 0 else text.find("panicked")
        violation(merged, "miri", "sim", text[i:i + 120].split("\n")[0], text[max(0, i - 200):i + 3000])
    else:
        errors.append(f"miri: exit {r.returncode}: {text[-1500:]}")


def run_extra(extra, pid, seed, merged, errors, notes):
    if extra == "miri":
        miri(pid, seed, merged, errors, notes)
    else:
        sanitized(extra, pid, seed, merged, errors, notes)
