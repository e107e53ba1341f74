#!/bin/bash
# newbug.sh ID PROPERTY NEEDS BREAKS: takes the uncommitted change in /repo as planted bug ID (demo.rs on stdin), undoes it.
d=/verif/seeded/$1; mkdir -p $d
cat > $d/demo.rs
git -C ${REPO:-/repo} diff > $d/patch.diff; git -C ${REPO:-/repo} checkout -q -- .
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
python3 - "$@" <<'P' > $d/meta.json
import json,sys
print(json.dumps(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),indent=1))
P
