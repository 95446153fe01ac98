#!/bin/bash
# h.sh <pid> [harness...]: per-harness cost of the symbolic run (development aid).  T=thorough with TIER=1
cd /verif; c=$1; shift; hs=$*
[ -z "$NOBUILD" ] && { python3 - $c <<'E' || exit 1
import sys; sys.argv=['x',sys.argv[1]]
src=open('/verif/check.py').read().replace('\nmain()\n','\n'); exec(src.replace("os.path.abspath(__file__)","'/verif/check.py'"))
build_engine(); P=Prop(sys.argv[1].upper()); P.build_ir()
E
}
[ -z "$hs" ] && hs=$(grep -oP '(?<=fn )st?_\w+(?=\s*\(\s*\)\s*\{)' harness/$c/src/lib.rs)
for h in $hs; do o=$(mktemp -d); s=$(date +%s.%N); timeout -k 2 ${X:-1000} target/rsx target/ir/release/deps/$c.ll $h -j ${J:-8} -t ${T:-120} -o $o -p 0=${TIER:-0}; echo "$h rc=$? $(echo "$(date +%s.%N)-$s"|bc)s"; python3 - $o <<'E'
import json,glob,sys
t={};errs=[]
for f in glob.glob(sys.argv[1]+'/*.json'):
    d=json.load(open(f)); errs+=d['errors']
    for k,v in d.items():
        if isinstance(v,(int,float)): t[k]=round(t.get(k,0)+v,2)
    for h,x in d['harnesses'].items():
        for k,v in x.items():
            if isinstance(v,int): t[k]=max(t.get(k,0),v) if 'max' in k else t.get(k,0)+v
            elif v: t.setdefault(k,set()).update(v)
print('   ',' '.join('%s=%s'%(k,v) for k,v in t.items() if v))
seen=set()
for e in errs:
    k=(e['kind'],tuple(e['stack'][:3]))
    if k in seen: continue
    seen.add(k)
    print('   ERR',e['kind'],e['msg'],e['inputs']); [print('       ',s) for s in e['stack'][:int(__import__('os').environ.get('D','8'))]]
E
rm -rf $o; done
