#!/usr/bin/env python3
"""addprops.py < blocks: development aid that writes props/<ID>.json from a compact text form."""
import sys, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for blk in re.split(r'^=== ', sys.stdin.read(), flags=re.M)[1:]:
    L = blk.strip().split('\n'); pid, title = L[0].split(' ', 1); d = {}
    for l in L[1:]:
        k, v = l.split(': ', 1); d.setdefault(k, []).append(v)
    j = {'id': pid, 'title': title, 'statement': d['S'][0], 'quantifier': {'over': d['over'][0].split(','), 'text': d['Q'][0]}, 'why_tests_cant': d['T'][0],
         'anchors': {'files': d['F'][0].split(', '), 'mechanism': [dict(zip(('name', 'where'), m.split(' @ '))) for m in d['M']]}}
    if 'NA' in d: j['na'] = d['NA'][0]
    if len(title) > 80: print('TITLE TOO LONG', pid, len(title)); title = title[:80]
    json.dump(j, open('%s/props/%s.json' % (V, pid), 'w'), indent=1); open('%s/props/%s.json' % (V, pid), 'a').write('\n')
