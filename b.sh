#!/bin/bash
# developer helper: build the harness; with arguments, also run these checks
. /opt/vp/env.sh
cd /verif && python3 tools/mkws.py && cd harness
CARGO_TARGET_DIR=/verif/build/target RUSTFLAGS="--cfg pushcdn_verif" CARGO_PROFILE_DEV_DEBUG=0 cargo build --offline ${BINS} >/tmp/build.log 2>&1 || { grep -A14 -E "^error" /tmp/build.log | head -${LINES_MAX:-90}; exit 1; }
sed -n '/Compiling pcv/,$p' /tmp/build.log | grep -A6 "^warning: unused" | head -20
cd /verif
for p in "$@"; do
  BIN=${BIN:-sim}
  PCV_DEBUG=${PCV_DEBUG-1} timeout 900 build/target/debug/$BIN check $p ${TIER:-quick} ${SEED:-1} ${BUDGET:-20} /tmp/o-$p.json 2>&1 | tail -${TAIL:-12}
  python3 - /tmp/o-$p.json <<'P'
import json,sys
o=json.load(open(sys.argv[1]));print(o['cov'],'distinct',o['distinct'],o['runs'],'inconcl',o['n_inconclusive'],o['inconclusive'][:2])
for v in o['violations'][:6]: print('  V',v['scenario'],v['seed'],v['sig'],'|',v['detail'][:500])
P
done
