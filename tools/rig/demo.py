"""Builds the demonstration beside this folder against the tree in the current directory, and runs it.
Everything is written to a scratch directory that is removed at the end."""
import os, shutil, subprocess, sys, tempfile

here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
keep = os.environ.get("PCV_DEMO_DIR")  # developer's aid: a directory to build in again and again
scratch = keep or tempfile.mkdtemp(prefix="pcv-demo-")
rc = 2
try:
    os.makedirs(scratch, exist_ok=True)
    h = os.path.join(scratch, "harness")
    shutil.copytree(os.path.join(here, "crate"), h, dirs_exist_ok=True)
    os.makedirs(os.path.join(h, "src/bin"), exist_ok=True)
    shutil.copy(os.path.join(here, "..", "demo.rs"), os.path.join(h, "src/bin/demo.rs"))
    env = dict(os.environ, PCV_REPO=repo, PCV_WS=os.path.join(scratch, "build/ws"),
               CARGO_TARGET_DIR=os.path.join(scratch, "target"), RUSTFLAGS="--cfg pushcdn_verif",
               CARGO_PROFILE_DEV_DEBUG="0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
               CARGO_INCREMENTAL="0", HOME="/root", RUSTC_WRAPPER="",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
               PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
    subprocess.run([sys.executable, os.path.join(here, "mkws.py")], env=env, check=True)
    b = subprocess.run(["cargo", "build", "--offline", "--bin", "demo"], cwd=h, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=240)
    if b.returncode:
        print(b.stdout[-4000:])
    else:
        try:
            rc = subprocess.run([os.path.join(scratch, "target/debug/demo")], cwd=scratch, env=env, timeout=100).returncode
        except subprocess.TimeoutExpired:
            print("the demonstration did not finish within 100 s")
            rc = 3
finally:
    if not keep:
        shutil.rmtree(scratch, ignore_errors=True)
sys.exit(rc if rc >= 0 else 4)
