#!/bin/bash
# tryseed.sh ID: confirms a planted bug (demo quiet on the clean tree; with the patch: builds, passes the tests, demo
# fails), then runs its property's check against it. /repo must be clean; it is left clean.
cd /verif; id=$1; d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 9; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
python3 tools/mkseed.py $id
export PCV_DEMO_DIR=/tmp/pcv-demo-dev
mkdir -p /tmp/seedrun; cp -r $d /tmp/seedrun/
demo() { (cd /repo && bash /tmp/seedrun/$id/demo.sh) > /tmp/seed-$id-$1.log 2>&1; echo $?; }
[ -n "$SKIPCLEAN" ] || { r=$(demo clean); echo "clean demo: $r $(tail -1 /tmp/seed-$id-clean.log | cut -c1-300)"; }
git -C /repo apply $d/patch.diff || { echo "does not apply"; exit 8; }
if [ -z "$SKIPTEST" ]; then
bash /opt/vp/build.sh > /tmp/seed-$id-build.log 2>&1 || { echo "does not build"; tail -20 /tmp/seed-$id-build.log; git -C /repo checkout -q -- .; exit 7; }
bash /opt/vp/test.sh /tmp/seed-$id-t.json > /tmp/seed-$id-test.log 2>&1; echo "tests: $(tail -1 /tmp/seed-$id-test.log)"
fi
r=$(demo bug); echo "demo with bug: $r $(tail -1 /tmp/seed-$id-bug.log | cut -c1-300)"
for p in ${PROPS:-$prop}; do
  timeout 900 python3 run.py check $p > /tmp/seed-$id-$p.log 2>&1; echo "check $p: rc $? $(grep -m1 VIOLATION /tmp/seed-$id-$p.log | cut -c1-200)"
done
git -C /repo checkout -q -- .
