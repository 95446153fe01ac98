#!/usr/bin/env python3
"""mkseed.py FILE: make and confirm a planted bug in a scratch copy (/tmp/seedwt).  FILE is a python file with ID, PROPERTY, NEEDS, BREAKS,
EDITS = [(file, old, new)], DEP = 'prim'|'full', DEMO = main.rs text."""
import sys, os, subprocess, json, shutil
V = '/verif'; W = '/tmp/seedwt'
g = {}; exec(open(sys.argv[1]).read(), g)
ID, D = g['ID'], V + '/seeded/' + g['ID']
def run(c, cwd=W, t=1200):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t); return p.returncode, p.stdout
if not os.path.exists(W): run('cp -a /repo ' + W, '/')
run('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
for f, a, b in g['EDITS']:
    s = open(f'{W}/{f}').read(); assert s.count(a) == 1, (f, s.count(a), a)
    open(f'{W}/{f}', 'w').write(s.replace(a, b))
os.makedirs(D, exist_ok=True)
rc, diff = run('git diff'); open(D + '/patch.diff', 'w').write(diff)
rc, out = run("cargo test --workspace --no-fail-fast --offline --locked 2>&1 | grep -E '^(test result|error|test .* FAILED)'")
print('tests:', 'FAILED' in out, *[l for l in out.split(chr(10)) if 'FAILED' in l or 'error' in l][:4])
bad = 'FAILED' in out or 'error' in out
dep = {'prim': 'ringhopper-primitives = { path = "REPO/src/ringhopper-primitives" }', 'full': 'ringhopper = { path = "REPO/src/ringhopper" }'}[g['DEP']]
dep += ''.join('\n' + x for x in g.get('DEPS', []))
open(D + '/main.rs', 'w').write(g['DEMO'].lstrip('\n'))
open(D + '/Cargo.toml.in', 'w').write(f'[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[[bin]]\nname = "demo"\npath = "main.rs"\n\n[dependencies]\n{dep}\n\n[workspace]\n')
open(D + '/demo.sh', 'w').write('''#!/bin/bash
# Builds main.rs against the working tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd); t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
sed "s|REPO|$repo|" "$here/Cargo.toml.in" > "$t/Cargo.toml"; cp "$here/main.rs" "$repo/Cargo.lock" "$t/"
cd "$t" && CARGO_TARGET_DIR="$t/target" FLAGSTIMEOUT 280 cargo run -q --offline
'''.replace('FLAGSTIMEOUT', g.get('FLAGS', '') + 'timeout'))
json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(D + '/meta.json', 'w'), indent=1)
rc1, o1 = run(f'bash {D}/demo.sh'); run('git checkout -q -- .'); rc0, o0 = run(f'bash {D}/demo.sh')
print('with patch', rc1, [l for l in o1.split(chr(10)) if 'panicked' in l or l.startswith('error')][:3]); print('without', rc0, [l for l in o0.split(chr(10)) if 'panicked' in l or l.startswith('error')][:3])
ok = not bad and rc1 != 0 and rc0 == 0 and 'could not compile' not in o1
print('CONFIRMED' if ok else 'NOT CONFIRMED', ID)
