#!/bin/bash
# k.sh <pid> [harness...]: per-harness cost of the Kani proofs (development aid), T=seconds
cd /verif/harness/$1; c=$1; shift; hs=$*
[ -z "$hs" ] && hs=$(grep -oP '(?<=fn )kt?_\w+(?=\s*\(\s*\)\s*\{)' src/lib.rs)
for h in $hs; do ( timeout ${T:-400} cargo kani -Z stubbing -Z unstable-options --lib --target-dir /tmp/kani-$c$h --harness $h > /tmp/k.$h.log 2>&1; echo "$h rc=$? $(grep -E 'VERIFICATION|Verification Time|^Failed Checks|^error' /tmp/k.$h.log | tr '\n' ' ')"; rm -rf /tmp/kani-$c$h ) & while [ $(jobs -r | wc -l) -ge ${J:-8} ]; do sleep 0.3; done; done; wait
