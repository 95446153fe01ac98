#!/usr/bin/env python3
"""Writes the parts of DESIGN.md that follow from the harness crates (below the marker line)."""
import json, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = '<!-- generated by tools/design.py -->'
head = open(V + '/DESIGN.md').read().split(M)[0]
out = [M, '', '## The properties', '']
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); pid = p['id']; d = f'{V}/harness/{pid.lower()}'
    out.append(f"### {pid} {p['title']}")
    if not os.path.exists(d):
        na = json.load(open(f'{V}/props/{pid}.json')).get('na', '')
        out += ['Not applicable. ' + na, '']; continue
    m = json.load(open(d + '/meta.json')); src = open(d + '/src/lib.rs').read()
    first = re.match(r'((?://.*\n)+)', src)
    hs = [(n, doc) for doc, n in re.findall(r'((?:^\s*///.*\n)*)\s*fn ((?:s|st|k|kt)_\w+)\s*\(\)', src, re.M)]
    eng = []
    if any(n.startswith('s') for n, _ in hs): eng.append('symbolic execution of the IR')
    if any(n.startswith('k') for n, _ in hs): eng.append('Kani')
    out.append(f"{p['statement']}\n\nDecided by {' and '.join(eng)}; code: {', '.join(p['anchors']['files'])}.\n")
    for n, doc in hs:
        t = ' '.join(x.strip().lstrip('/').strip() for x in doc.strip().split('\n')).strip()
        out.append(f"* `{n}`" + (f": {t}" if t else ''))
    out.append('')
    b = m['bounds']
    out.append(f"Bounds: {b.get('quick', '')}" + (f" Thorough: {b['thorough']}." if b.get('thorough') not in (None, 'as quick', b.get('quick')) else ''))
    if m.get('outside'): out.append(f"Outside: {m['outside']}")
    for a in m.get('assumptions', []): out.append(f"Assumed: {a}")
    out.append(f"\nWhy tests cannot: {p['why_tests_cant'].rstrip('.')}.\n")
k = json.load(open(V + '/known_findings.json'))
out += ['## Defects found and repaired', ''] + ['* ' + f.replace('fixed: ', '') for f in k['fixed']] + ['']
out += ['## Planted bugs', '', '| bug | property | needs | caught by |', '|---|---|---|---|']
try: c = json.load(open(V + '/tools/caught.json'))
except OSError: c = {}
for d, s in sorted((d, s) for d in ('seeded', 'seeded_more') for s in os.listdir(f'{V}/{d}')):
    m = json.load(open(f'{V}/{d}/{s}/meta.json'))
    out.append(f"| {s} | {m['property']} | {m['needs']} | {c.get(s, 'see below')} |")
open(V + '/DESIGN.md', 'w').write(head.rstrip('\n') + '\n\n' + '\n'.join(out) + '\n')
