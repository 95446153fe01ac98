#!/bin/bash
# catch2.sh <seed>...: as catch.sh, but in a private mount where a patched copy of /repo takes its place
[ -e /tmp/catchwt ] || cp -a /repo /tmp/catchwt
for s in "$@"; do p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
( cd /tmp/catchwt && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git apply /verif/seeded/$s/patch.diff ) || continue
P=${P:-$p}
unshare -m bash -c "mount --bind /tmp/catchwt /repo && cd /verif && for q in $P; do timeout 900 python3 check.py \$q ${TIER:-quick}; echo rc=\$?; done" > /tmp/catch.log 2>&1
echo "$s $(grep -c VIOLATION /tmp/catch.log) $(grep '^rc=' /tmp/catch.log | tr '\n' ' ')"; grep -E "VIOLATION|ERROR|incomplete|KNOWN" /tmp/catch.log | head -4; unset P; done
( cd /tmp/catchwt && git checkout -q -- . )
