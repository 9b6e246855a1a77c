#!/bin/bash
# catch.sh [id...]: runs each planted bug's own check against a scratch copy with the patch applied (not used by any check)
cd /verif/seeded
for s in ${@:-*}; do
  w=$(mktemp -d /tmp/catch-XXXXXX); git -C /repo archive HEAD | tar x -C $w; (cd $w && git apply --unsafe-paths --directory=$w /verif/seeded/$s/patch.diff 2>/dev/null || patch -s -p1 < /verif/seeded/$s/patch.diff)
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  (cd /verif; VG_REPO=$w python3 run.py $p quick > $w/out.log 2>&1; r=$?; echo "$s $p rc=$r $(grep -m1 VIOLATION -A3 $w/out.log | tr '\n' ' ' | cut -c1-250)")
  rm -rf "$w"
done
