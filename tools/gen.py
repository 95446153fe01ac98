#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/*.json (one file per property; `na` = reason when not claimed)."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'symbolic execution of the compiled code (LLVM IR) with Z3 deciding every branch and assertion'
ps = [json.load(open(f)) for f in sorted(glob.glob(V + '/props/*.json'))]
hooks = json.load(open(V + '/props/hooks.txt')) if os.path.exists(V + '/props/hooks.txt') else None
checks, na = [], []
with open(V + '/properties.jsonl', 'w') as o:
    for p in ps:
        o.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
        assert len(p['title']) <= 80, p['id']
        if 'na' in p: na.append({'property': p['id'], 'reason': p['na']}); continue
        m = json.load(open('%s/harness/%s/meta.json' % (V, p['id'].lower())))
        src = open('%s/harness/%s/src/lib.rs' % (V, p['id'].lower())).read()
        kani = bool(re.search(r'\bfn\s+kt?_\w+\s*\(', src))
        b = m['bounds']
        note = 'Bounded: ' + b['quick'] + '.' + (' Thorough: ' + b['thorough'] + '.' if b.get('thorough') else '') + (' Outside the claim: ' + m['outside'] + '.' if m.get('outside') else '')
        if m.get('assumptions'): note += ' Assumes: ' + '; '.join(m['assumptions']) + '.'
        note += ' Trusted: rustc\'s IR, the engine\'s IR semantics (checked on every run by replaying solver models natively and comparing traces), Z3' + (', Kani/CBMC' if kani else '') + '.'
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                       'technique': T + (' and Kani/CBMC bit-precise proofs' if kani else ''), 'level': 'model_checking', 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks, 'not_applicable': na}
if hooks: m['hooks'] = hooks
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not applicable')
