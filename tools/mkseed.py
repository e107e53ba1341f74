"""mkseed.py ID...: lays the demonstration's rig (a copy of the harness's core) into /verif/seeded/ID."""
import os, re, shutil, sys
V = "/verif"
for i in sys.argv[1:] or sorted(os.listdir(f"{V}/seeded")):
    d = f"{V}/seeded/{i}"
    shutil.rmtree(f"{d}/rig", ignore_errors=True)
    c = f"{d}/rig/crate"
    shutil.copytree(f"{V}/harness", c, ignore=lambda p, n: [x for x in n if x in ("checks", "bin", "cli.rs", "target")])
    shutil.copy(f"{V}/tools/mkws.py", f"{d}/rig/mkws.py")
    shutil.copy(f"{V}/tools/rig/demo.py", f"{d}/rig/demo.py")
    shutil.copy(f"{V}/tools/rig/demo_mod.rs", f"{c}/src/demo.rs")
    p = f"{c}/src/lib.rs"
    s = open(p).read()
    s = re.sub(r"(pub )?mod (checks|cli);\n", "", s) + "pub mod demo;\n"
    open(p, "w").write(s)
    p = f"{c}/Cargo.toml"
    s = open(p).read().replace("opt-level = 1", "opt-level = 0")
    open(p, "w").write(s)
    with open(f"{d}/demo.sh", "w") as f:
        f.write('#!/bin/bash\n# Run in the repository: exit 0 if the property holds in this demonstration, 1 if it is violated.\n'
                'exec python3 "$(cd "$(dirname "$0")" && pwd)/rig/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
