#!/usr/bin/env python3
"""Driver.  usage: check.py setup | check.py <PROPERTY> [quick|thorough]

For one property: compile its harness crate together with /repo's current sources to LLVM IR, execute the harnesses symbolically
with /verif/engine (Z3 decides every branch and assertion), run the Kani proofs if the property has any, replay every
counterexample natively, and write evidence/<PROPERTY>.json.
exit 0: held on everything explored; 1: VIOLATION confirmed by native replay; 2: the machinery failed."""
import sys, os, re, json, subprocess, time, shutil, hashlib, tempfile, threading, fcntl, signal

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
TGT = os.path.join(V, 'target')
ENGINE = os.path.join(TGT, 'rsx')
JOBS = min(8, os.cpu_count() or 8)
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', CARGO_TERM_COLOR='never',
           RUSTFLAGS='--cfg ringhopper_verif -Awarnings', CARGO_INCREMENTAL='0')
ENV.pop('CARGO_TARGET_DIR', None)
ENV['RSX_TRACE'] = '1'
IRTGT = os.path.join(TGT, 'ir')


def die(msg, code=2):
    print('ERROR ' + msg, flush=True)
    sys.exit(code)


def sh(cmd, timeout=None, env=None, cwd=V):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env or ENV, cwd=cwd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, _ = p.communicate()
        return -9, (out or '') + '\nTIMEOUT'


def build_engine():
    src = sorted(os.path.join(V, 'engine', f) for f in os.listdir(os.path.join(V, 'engine')) if f.endswith(('.h', '.cpp')))
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()
    stamp = ENGINE + '.sha'
    if os.path.exists(ENGINE) and os.path.exists(stamp) and open(stamp).read() == h: return
    os.makedirs(TGT, exist_ok=True)
    rc, out = sh(['g++', '-O2', '-std=c++20', '-w', '-o', ENGINE + '.tmp', os.path.join(V, 'engine', 'rsx.cpp'), '-lz3', '-lpthread'], 600)
    if rc: die('engine build failed:\n' + out[-3000:])
    os.replace(ENGINE + '.tmp', ENGINE)
    open(stamp, 'w').write(h)


def repo_hash():
    h = hashlib.sha256()
    for d, ds, fs in os.walk(os.path.join(REPO, 'src')):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(p.encode() + b'\0' + open(p, 'rb').read())
    return h.hexdigest()


def fresh(tdir):
    """Cargo decides by modification times; decide by content instead: when /repo's sources differ from those of the last build,
    drop the fingerprints of its crates so that they are rebuilt."""
    stamp, h = os.path.join(tdir, 'repo.sha'), repo_hash()
    if os.path.isdir(tdir) and not (os.path.exists(stamp) and open(stamp).read() == h):
        for d, ds, fs in os.walk(tdir):
            if os.path.basename(d) == '.fingerprint':
                for x in ds:
                    if x.startswith('ringhopper') or re.match(r'p\d\d-', x): shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                ds[:] = []
    os.makedirs(tdir, exist_ok=True)
    open(stamp, 'w').write(h)


class Prop:
    def __init__(self, pid):
        self.id = pid
        self.crate = pid.lower()
        self.dir = os.path.join(V, 'harness', self.crate)
        self.src = open(os.path.join(self.dir, 'src', 'lib.rs')).read()
        code = re.sub(r'//[^\n]*', '', self.src)
        self.h = {}
        for m in re.finditer(r'\bfn\s+((?:s|st|k|kt)_\w+)\s*\(\s*\)\s*\{', code):
            i, d = m.end(), 1
            while d:
                c = code[i]
                d += (c == '{') - (c == '}')
                i += 1
            body = code[m.end():i]
            self.h[m.group(1)] = sorted({int(x) for x in re.findall(r'\bcover!\s*\(\s*(\d+)', body)})
        self.meta = json.load(open(os.path.join(self.dir, 'meta.json')))
        self.ll = os.path.join(IRTGT, 'release', 'deps', self.crate + '.ll')
        self.bin = os.path.join(IRTGT, 'release', 'replay_' + self.crate)

    def names(self, tier):
        t = tier == 'thorough'
        return ([n for n in self.h if n.startswith('s_') or (t and n.startswith('st_'))],
                [n for n in self.h if n.startswith('k_') or (t and n.startswith('kt_'))])

    def build_ir(self):
        fresh(IRTGT)
        lock = os.path.join(self.dir, 'Cargo.lock')
        rc, out = sh(['cargo', 'rustc', '--offline', '--release', '--lib', '--target-dir', IRTGT, '--manifest-path', os.path.join(self.dir, 'Cargo.toml'),
                      '--', '--cfg', 'rsx', '--emit=llvm-ir', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'], 900)
        if rc or not os.path.exists(self.ll): die('harness build failed (does /repo compile?):\n' + out[-4000:])

    def build_replay(self):
        return sh(['cargo', 'build', '--offline', '--release', '--bin', 'replay_' + self.crate, '--target-dir', IRTGT,
                   '--manifest-path', os.path.join(self.dir, 'Cargo.toml')], 900)

    def replay(self, name, hexs, tier, timeout=60):
        """(reproduced, description)"""
        self.trace = None
        cmd = [self.bin, name, '1' if tier == 'thorough' else '0', hexs]
        rc, out = sh(['bash', '-c', 'ulimit -v 16000000; exec "$@"', 'x'] + cmd, timeout)
        if rc == 0:
            self.trace = [int(x) for x in re.findall(r'^TRACE (\d+)', out, re.M)]
            return False, 'passes'
        if rc in (77, 78): return None, out.strip()[-200:]
        return True, 'rc=%d %s' % (rc, out.strip()[-600:])


def known(pid):
    p = os.path.join(V, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == pid]


def kani_one(P, name, tier, budget):
    tdir = os.path.join(TGT, 'kani-' + P.crate)
    env = dict(ENV); env.pop('RUSTUP_TOOLCHAIN')
    cmd = ['cargo', 'kani', '-Z', 'stubbing', '-Z', 'unstable-options', '-Z', 'concrete-playback', '--lib', '--target-dir', tdir,
           '--harness', name, '--concrete-playback=print']
    t0 = time.time()
    rc, out = sh(cmd, budget, env, P.dir)
    m = re.search(r'VERIFICATION:-\s*(SUCCESSFUL|FAILED)', out)
    r = {'status': 'timeout' if rc == -9 else (m.group(1).lower() if m else 'error'), 'wall': time.time() - t0, 'log': out}
    mm = re.search(r'Verification Time: ([\d.]+)s', out)
    r['solver_s'] = float(mm.group(1)) if mm else 0.0
    mm = re.search(r'\*\* (\d+) of (\d+) failed', out)
    r['checks'] = int(mm.group(2)) if mm else 0
    mm = re.search(r'\*\* (\d+) of (\d+) cover properties satisfied', out)
    r['covers'] = (int(mm.group(1)), int(mm.group(2))) if mm else (0, 0)
    r['failed'] = re.findall(r'Failed Checks: (.*)', out)
    if r['status'] == 'failed':
        # only unsatisfied covers?  concrete values, one vec![..] per any()
        vals = []
        for blk in re.findall(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\];\s*kani::concrete', out, re.S):
            vals.append(''.join('%02x' % int(x) for v in re.findall(r'vec!\[([\d,\s]*)\]', blk) for x in v.replace(' ', '').split(',') if x))
        r['vals'] = vals
        if re.search(r'unwinding assertion', ' '.join(r['failed'])): r['unwind'] = True
    return r


def kani_all(P, names, tier, budget):
    # compile once, then verify in parallel
    if not names: return {}
    from concurrent.futures import ThreadPoolExecutor
    env = dict(ENV); env.pop('RUSTUP_TOOLCHAIN')
    fresh(os.path.join(TGT, 'kani-' + P.crate))
    rc, out = sh(['cargo', 'kani', '-Z', 'stubbing', '-Z', 'unstable-options', '--lib', '--only-codegen', '--target-dir', os.path.join(TGT, 'kani-' + P.crate)], 600, env, P.dir)
    if rc: die('kani codegen failed:\n' + out[-3000:])
    with ThreadPoolExecutor(P.meta.get('kani_jobs', 4)) as ex:
        return dict(zip(names, ex.map(lambda n: kani_one(P, n, tier, budget), names)))


def main():
    if len(sys.argv) < 2: die('usage')
    os.makedirs(TGT, exist_ok=True)
    if sys.argv[1] == 'setup': return setup()
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    t0 = time.time()
    build_engine()
    P = Prop(pid)
    only = os.environ.get('ONLY')
    sn, kn = P.names(tier)
    if only: sn = [n for n in sn if re.search(only, n)]; kn = [n for n in kn if re.search(only, n)]
    budget = P.meta.get('budget', {}).get(tier, 400 if tier == 'quick' else 800)
    t_build = time.time()
    P.build_ir()
    t_build = time.time() - t_build
    rep = {}
    th = threading.Thread(target=lambda: rep.update(r=P.build_replay()))
    th.start()
    kres = {}
    kth = threading.Thread(target=lambda: kres.update(kani_all(P, kn, tier, budget)))
    kth.start()
    outd = tempfile.mkdtemp(prefix='rsx', dir=TGT)
    agg = {'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'cache_hits': 0, 'domain_decisions': 0, 'solver_s': 0.0}
    H = {n: {'paths': 0, 'assumed_away': 0, 'insts': 0, 'forks': 0, 'max_inst': 0, 'max_inputs': 0, 'asserts': 0, 'covers': set(), 'incomplete': set()} for n in sn}
    errors, funcs, samples = [], set(), []
    try:
        if sn:
            jobs = max(1, JOBS - (2 if kn else 0))
            cmd = [ENGINE, P.ll, '-j', str(jobs), '-t', str(budget), '-o', outd, '-q', str(P.meta.get('query_timeout', 60)), '-m', str(P.meta.get('mem_mb', 3000)),
                   '-p', '0=%d' % (tier == 'thorough'), '-b', str(P.meta.get('inst_budget', 400000000))] + sn
            rc, out = sh(cmd, budget + 120)
            if rc: die('engine failed (rc %d): %s' % (rc, out[-2000:]))
            for f in os.listdir(outd):
                d = json.load(open(os.path.join(outd, f)))
                for k in agg: agg[k] += d[k]
                for n, r in d['harnesses'].items():
                    h = H[n]
                    for k in ('paths', 'assumed_away', 'insts', 'forks', 'asserts'): h[k] += r[k]
                    for k in ('max_inst', 'max_inputs'): h[k] = max(h[k], r[k])
                    h['covers'] |= set(r['covers']); h['incomplete'] |= set(r['incomplete'])
                errors += d['errors']; funcs |= set(d['functions']); samples += d.get('samples', [])
    finally:
        shutil.rmtree(outd, ignore_errors=True)
    kth.join(); th.join()
    if kn and not kres: die('kani did not run')
    if rep['r'][0]: die('replay build failed:\n' + rep['r'][1][-3000:])
    viol, knownhits, problems, notes = [], [], [], []
    # --- counterexamples
    seen = set()
    for e in errors:
        key = (e['harness'], e['kind'], tuple(s for s in e['stack'] if '/repo/' in s or 'harness' in s)[:3])
        if key in seen: continue
        seen.add(key)
        r, desc = P.replay(e['harness'], e['inputs'], tier, 30)
        if not r:
            problems.append('counterexample of %s does not reproduce natively (%s): %s %s inputs=%s at %s' % (e['harness'], desc, e['kind'], e['msg'], e['inputs'], e['stack'][:4])); continue
        k = match_known(pid, e)
        if k: knownhits.append((k, e)); continue
        viol.append(dict(harness=e['harness'], kind=e['kind'], msg=e['msg'], inputs=e['inputs'], stack=e['stack'], native=desc, tier=tier))
    for n, r in kres.items():
        if r['status'] == 'failed':
            fails = [f for f in r['failed'] if 'unwinding assertion' not in f]
            okv = None
            for hx in r.get('vals', []):
                rr, desc = P.replay(n, hx, tier, 30)
                if rr: okv = (hx, desc); break
            if okv:
                e = dict(harness=n, kind='kani', msg='; '.join(fails)[:400], inputs=okv[0], stack=[], native=okv[1], tier=tier)
                k = match_known(pid, e)
                if k: knownhits.append((k, e))
                else: viol.append(e)
            else: problems.append('kani harness %s failed but no counterexample reproduces: %s' % (n, r['failed'][:3]))
        elif r['status'] == 'timeout': notes.append('kani harness %s: no verdict within the time cap' % n)
        elif r['status'] == 'error': problems.append('kani harness %s: no verdict\n%s' % (n, r['log'][-1500:]))
        elif r['covers'][0] != r['covers'][1]: problems.append('kani harness %s: vacuous (covers %d of %d)' % (n, *r['covers']))
    # --- completeness / vacuity
    for n, h in H.items():
        miss = [c for c in P.h[n] if c not in h['covers']]
        herr = any(e['harness'] == n for e in errors)
        if miss and not herr and not h['incomplete']: problems.append('harness %s is vacuous: cover %s never satisfied' % (n, miss))
        if h['paths'] == 0 and not herr and not h['incomplete']: problems.append('harness %s completed no path' % n)
        for w in sorted(h['incomplete']): notes.append('harness %s: %s' % (n, w))
    validated = 0
    per = {}
    for s in sorted(samples, key=lambda s: -s['insts']): per.setdefault(s['harness'], {}).setdefault(s['inputs'], s)
    samples = [x for h in sorted(per) for l in [list(per[h].values())] for x in l[:6] + l[6::max(1, (len(l) - 6) // 10)]]
    bad = []
    for s in samples:
        r, desc = P.replay(s['harness'], s['inputs'], tier, 30)
        if r is False and s.get('trace') and s['trace'] != P.trace: bad.append((s, 'trace differs: native %s, symbolic %s' % (P.trace[:20], s['trace'][:20])))
        elif r is False: validated += 1
        elif not any(e['harness'] == s['harness'] for e in errors): bad.append((s, desc))
    for s, desc in bad[:3]: problems.append('path of %s that the engine completed does not pass natively: inputs=%s %s' % (s['harness'], s['inputs'], desc))
    wall = time.time() - t0
    write_evidence(P, tier, H, agg, funcs, samples, validated, kres, viol, knownhits, notes, wall, t_build)
    for k, e in knownhits: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for w in notes[:20]: print('INCOMPLETE %s' % w)
    tot = sum(h['paths'] for h in H.values())
    print('%s %s: %d symbolic harnesses (%d paths, %d instructions, %d solver queries, %.1f s solver), %d kani proofs, %d paths replayed natively, %.1f s'
          % (pid, tier, len(sn), tot, sum(h['insts'] for h in H.values()), agg['queries'], agg['solver_s'], len(kn), validated, wall))
    if viol:
        rd = os.path.join(TGT, 'replay'); os.makedirs(rd, exist_ok=True)
        for v in viol[:5]:
            f = os.path.join(rd, '%s-%s-%s.json' % (pid, v['harness'], hashlib.sha1((v['inputs'] + v['kind']).encode()).hexdigest()[:8]))
            v['replay_cmd'] = '%s %s %s %s' % (P.bin, v['harness'], '1' if tier == 'thorough' else '0', v['inputs'])
            json.dump(v, open(f, 'w'), indent=1)
            print('  %s: %s: %s\n    inputs %s\n    native: %s' % (v['harness'], v['kind'], v['msg'], v['inputs'][:200], v['native'][:300]))
            for s in v['stack'][:8]: print('    at ' + s)
            print('VIOLATION property=%s replay=%s' % (pid, f), flush=True)
        sys.exit(1)
    if problems:
        for p in problems[:10]: print('PROBLEM ' + p)
        sys.exit(2)
    sys.exit(0)


def match_known(pid, e):
    for k in known(pid):
        if k['harness'] != e['harness']: continue
        if 'kind' in k and k['kind'] != e['kind']: continue
        if 'at' in k and not any(k['at'] in s for s in e['stack'][:k.get('depth', 6)]): continue
        return k
    return None


def write_evidence(P, tier, H, agg, funcs, samples, validated, kres, viol, knownhits, notes, wall, t_build):
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    cov = {
        'states': sum(h['paths'] + h['assumed_away'] for h in H.values()) + len(kres),
        'transitions': sum(h['insts'] for h in H.values()) + sum(r['checks'] for r in kres.values()),
        'traces_validated_against_impl': validated,
        'samples': samples[:6] or [{'harness': n, 'kani': r['status'], 'checks': r['checks']} for n, r in kres.items()][:6],
        'explanation': 'states = symbolic execution paths completed (each a solver-decided equivalence class of inputs) plus Kani proofs; transitions = LLVM IR instructions executed symbolically plus CBMC checks discharged; traces_validated_against_impl = paths whose solver model was replayed against the native build and passed.',
        'bounds': P.meta['bounds'].get(tier, P.meta['bounds'].get('quick')),
        'outside_bounds': P.meta.get('outside', ''),
        'harnesses': {n: {k: (sorted(v) if isinstance(v, set) else v) for k, v in h.items()} for n, h in H.items()},
        'kani': {n: {k: r[k] for k in ('status', 'checks', 'solver_s', 'covers')} for n, r in kres.items()},
        'solver': agg, 'functions_encoded_count': len(funcs), 'functions_encoded': sorted((f[:200] for f in funcs), key=lambda f: ('ringhopper' not in f, f))[:600], 'incomplete': notes, 'build_s': round(t_build, 1),
        'known_findings_hit': [k['what'] for k, _ in knownhits],
    }
    ev = {'property': P.id, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'coverage': cov,
          'assumptions': P.meta.get('assumptions', []) + BASE_ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': len(viol)}
    json.dump(ev, open(os.path.join(V, 'evidence', P.id + '.json'), 'w'), indent=1)


BASE_ASSUMPTIONS = [
    'rustc/LLVM front end up to post-LTO IR (opt-level 1, overflow checks and debug assertions on), the IR semantics implemented in /verif/engine, and Z3 are trusted; counterexamples and sampled paths are replayed natively',
    'uninitialised memory reads as zero, hash map seeds are fixed, allocation never fails below the stated limit, one thread',
    'text produced by format! is replaced by the empty string unless a harness says otherwise',
]


def setup():
    t0 = time.time()
    build_engine()
    limit = float(os.environ.get('SETUP_LIMIT', '1500'))
    for c in sorted(os.listdir(os.path.join(V, 'harness'))):
        if not os.path.exists(os.path.join(V, 'harness', c, 'meta.json')): continue
        if time.time() - t0 > limit: print('setup: time limit, remaining crates are built by their checks'); break
        P = Prop(c.upper())
        P.build_ir()
        P.build_replay()
        if any(n.startswith('k') for n in P.h):
            env = dict(ENV); env.pop('RUSTUP_TOOLCHAIN')
            sh(['cargo', 'kani', '-Z', 'stubbing', '-Z', 'unstable-options', '--lib', '--only-codegen', '--target-dir', os.path.join(TGT, 'kani-' + P.crate)], 600, env, P.dir)
        print('setup: %s built (%.0f s)' % (P.id, time.time() - t0), flush=True)
    sys.exit(0)


main()
