#!/bin/bash
# catch.sh <seed>...: apply a planted bug to /repo, run its property's check, undo
for s in "$@"; do p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
git -C /repo apply /verif/seeded/$s/patch.diff || continue
( cd /verif; timeout 900 python3 check.py $p ${TIER:-quick} ) > /tmp/catch.log 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$s $p rc=$rc"; grep -E "VIOLATION|ERROR|incomplete|KNOWN" /tmp/catch.log | head -5; done
