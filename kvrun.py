#!/usr/bin/env python3
"""Deductive check driver:  kvrun.py <PROPERTY> [--tier quick|thorough] [--unit U] [--case REGEX] [-v]

Builds the contract harnesses of a property against /repo's current sources, runs the VC
generator on every contract case, replays refuted obligations on the real double code,
writes /verif/evidence/<PROPERTY>.json and exits 0 / 1 (VIOLATION) / 2 (error)."""
import sys, os, re, json, time, hashlib, subprocess, shutil, argparse
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('KV_REPO', '/repo')
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, 'kv'))
import checks, mirror
BUILD = os.environ.get('KV_BUILD', os.path.join(V, 'build'))
VENV = '/opt/veriftools/pyvenv/bin/python'
NJ = int(os.environ.get('KV_JOBS', '8'))
LOG = []
def log(*a):
    LOG.append(' '.join(map(str, a)))
    if ARGS.v: print(*a, flush=True)
def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, **kw)
def h(*parts):
    m = hashlib.sha256()
    for p in parts: m.update(p if isinstance(p, bytes) else str(p).encode()); m.update(b'\0')
    return m.hexdigest()[:20]
def tree_hash(root):
    m = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(root)):
        ds.sort()
        for f in sorted(fs):
            m.update(os.path.join(d, f).encode()); m.update(open(os.path.join(d, f), 'rb').read())
    return m.hexdigest()
KVF = {f: open(os.path.join(V, 'kv', f), 'rb').read() for f in ('kv.hpp', 'kv_prelude.hpp', 'kv_sym.cpp', 'kv_conc.cpp', 'kvh.hpp', 'lsolve.hpp')}
INCDIRS = ['solver/include', 'solver_lqr/include', 'momentumopt/include']
class BuildError(Exception): pass
_mirror = None
def get_mirror():
    global _mirror
    if _mirror is None:
        srchash = h(*[tree_hash(os.path.join(REPO, p, s)) for p in ('solver', 'solver_lqr', 'momentumopt') for s in ('include', 'src', 'tests')], KVF['kv.hpp'], open(mirror.__file__, 'rb').read())
        out = os.path.join(BUILD, 'mirror', srchash)
        if not os.path.exists(out + '/.done'):
            shutil.rmtree(os.path.join(BUILD, 'mirror'), ignore_errors=True)
            mirror.mirror(REPO, out); open(out + '/.done', 'w').close()
        _mirror = (out, h(*[tree_hash(os.path.join(REPO, p, s))for p in ('solver', 'solver_lqr', 'momentumopt') for s in ('include', 'tests')], KVF['kv.hpp'], open(mirror.__file__, 'rb').read()))
    return _mirror
def flags(mode):
    base = ['-std=c++17', '-w', '-fpermissive', '-DEIGEN_NO_STATIC_ASSERT', '-D_GLIBCXX_ASSERTIONS', '-I' + V + '/kv', '-I' + V + '/harness', '-I/usr/include/eigen3']
    root = get_mirror()[0] if mode == 'sym' else REPO
    inc = ['-I' + V + '/shim'] + ['-I%s/%s' % (root, d) for d in INCDIRS] + ['-I%s/solver_lqr/tests' % root]
    return base + (['-O0', '-DKV_SYM'] if mode == 'sym' else ['-O1', '-fno-fast-math']) + inc
def compile_(cmd, out, desc):
    t = time.time(); r = sh(cmd + (['-o'] if cmd[0] != 'objcopy' else []) + [out + '.tmp']);
    if r.returncode: raise BuildError('%s\n%s' % (' '.join(cmd)[-200:], '\n'.join([l[:300] for l in r.stdout.splitlines() if 'error' in l or 'undefined' in l][:12]) or r.stdout[-3000:]))
    os.replace(out + '.tmp', out); log('built', desc, '%.1fs' % (time.time() - t)); return out
def cached(key, sub, suffix, cmd, desc):
    d = os.path.join(BUILD, sub); os.makedirs(d, exist_ok=True); out = os.path.join(d, key + suffix)
    if not os.path.exists(out): compile_(cmd, out, desc)
    return out
def common(mode):
    """precompiled prelude and engine object"""
    k = h(KVF['kv.hpp'], KVF['kv_prelude.hpp'], mode, 'pch2')
    d = os.path.join(BUILD, 'pch', mode + k); os.makedirs(d, exist_ok=True)
    for f in ('kv.hpp', 'kv_prelude.hpp'):
        if not os.path.exists(d + '/' + f): open(d + '/' + f, 'wb').write(KVF[f])
    base = [f for f in flags(mode) if not f.startswith('-I') or 'eigen' in f]
    def pch():
        g = d + '/kv_prelude.hpp.gch'
        if not os.path.exists(g): compile_(['g++'] + base + ['-x', 'c++-header', d + '/kv_prelude.hpp'], g, 'prelude ' + mode)
    src = 'kv_sym.cpp' if mode == 'sym' else 'kv_conc.cpp'
    def eng(): return cached(h(KVF['kv.hpp'], KVF[src]), 'engine', '.o', ['g++', '-std=c++17', '-O2'] + (['-DKV_SYM'] if mode == 'sym' else []) + ['-I' + V + '/kv', '-c', V + '/kv/' + src], src)
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(pch), ex.submit(eng); a.result(); return d + '/kv_prelude.hpp', b.result()
def build_cpp(unit, mode):
    u = checks.UNITS[unit]; prel, eng = common(mode); root, srchash = get_mirror(); fl = flags(mode) + ['-D' + x for x in u.get('defs', [])]; inc = [y for x in u.get('include', []) for y in ('-include', V + '/kv/' + x)]
    kvk = h(*[KVF[f] for f in ('kv.hpp', 'kv_prelude.hpp', 'kvh.hpp')], srchash, mode, ' '.join(fl + inc).replace(root, 'MIRROR'), KVF['lsolve.hpp'] if inc else '', tree_hash(V + '/harness'), tree_hash(V + '/shim') if os.path.isdir(V + '/shim') else '')
    jobs = [(V + '/harness/' + u['harness'], 'h')] + [((root if mode == 'sym' else REPO) + '/' + s, 's') for s in u.get('srcs', [])]
    def one(j):
        src, kind = j
        weak = u.get('weak') and kind == 's'
        o = cached(h(kvk, src.replace(root, 'MIRROR'), open(src, 'rb').read(), str(bool(weak))), 'obj', '.o', ['g++'] + fl + (['-O0'] if weak else []) + ['-include', prel] + inc + ['-c', src], os.path.basename(src) + ' ' + mode)
        # callee stubs of the same class: the unit under contract is compiled unchanged, its symbols are made weak so that
        # the contracts in the harness take the place of callees defined in the same file
        if not weak: return o
        fs = [l.split()[-1] for l in sh(['nm', '--defined-only', o]).stdout.splitlines() if ' T ' in l]
        return cached(h(o, 'w2'), 'weak', '.o', ['objcopy'] + ['--weaken-symbol=' + f for f in fs] + [o], os.path.basename(src) + ' weak')
    with ThreadPoolExecutor(NJ) as ex: objs = list(ex.map(one, jobs))
    return cached(h(kvk, eng, *objs), 'bin', '_' + unit + '_' + mode, ['g++'] + objs + [eng] + ['-lgmpxx', '-lgmp', '-lyaml-cpp', '-lboost_thread', '-lboost_system', '-lpthread'], unit + ' ' + mode + ' link')
def unit_cmd(unit, mode):
    u = checks.UNITS[unit]
    if u.get('kind', 'cpp') == 'py':
        return [VENV, V + '/harness/' + u['harness'], '--mode', mode]
    return [build_cpp(unit, mode)]
PYENV = dict(os.environ, PYTHONPATH=REPO + '/momentumopt/python:' + V + '/kv:/opt/vp/build', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MALLOC_PERTURB_='165')
def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
def run(cmd, timeout):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=PYENV, start_new_session=True, preexec_fn=limit)
    try: out, _ = p.communicate(timeout=timeout); return p.returncode, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        p.communicate(); return -99, 'timeout'
def list_cases(cmd):
    rc, out = run(cmd + ['--list'], 120)
    if rc: raise BuildError('listing cases failed: ' + out[-3000:])
    return [l for l in out.split() if l]
def write_inputs(path, case, v):
    with open(path, 'w') as f:
        f.write('case %s\nlabel %s\n' % (case, v.get('label')))
        for k, x in v.get('inputs', {}).items():
            if not k.startswith(('undef!', 'sin(', 'cos(', 'fn(')): f.write('input %s\t%s\n' % (k, x))
def try_concrete(unit, case, viols, seconds, out, seed):
    """look for a failing input on the real code; returns path of replay file or None"""
    cmd = unit_cmd(unit, 'conc')
    for i, v in enumerate(viols):
        f = out + '.cand%d' % i; write_inputs(f, case, v)
        for extra in ([], ['--jitter', '--random', '200', '--seed', str(seed)]):
            rc, o = run(cmd + ['--case', case, '--replay', f, '--save', out] + extra, 60)
            if rc == 1 and os.path.exists(out): os.unlink(f); return out, o.strip()
        os.unlink(f)
    if seconds > 0:
        rc, o = run(cmd + ['--case', case, '--random', '100000000', '--seed', str(seed), '--seconds', str(seconds), '--save', out], seconds + 60)
        if rc == 1 and os.path.exists(out): return out, o.strip()
        return None, o.strip()[-300:]
    return None, ''
def main():
    prop = ARGS.prop; tier = ARGS.tier; seed = int(os.environ.get('VERIF_SEED', '1')); t0 = time.time()
    spec = checks.PROPS[prop]; budget = spec.get('budget', {}).get(tier, 240 if tier == 'quick' else 2400)
    rdir = os.path.join(os.environ.get("KV_OUT", V + "/out"), prop); shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir)
    known = [json.loads(l[6:]) for l in open(V + '/KNOWN_FINDINGS') if l.startswith('known:')] if os.path.exists(V + '/KNOWN_FINDINGS') else []
    known = [k for k in known if k['property'] == prop]
    results, errors, degraded, work = [], [], [], []
    for unit, pat in spec['cases']:
        if ARGS.unit and unit != ARGS.unit: continue
        try:
            cmd = unit_cmd(unit, 'sym')
            for c in list_cases(cmd):
                if re.fullmatch(pat, c) and (re.search(ARGS.case, c) if ARGS.case else tier == 'thorough' or not c.endswith('_deep')): work.append((unit, c, cmd))
        except BuildError as e:
            log('SYM BUILD FAILED', unit, str(e)); degraded.append((unit, pat, str(e)[-1500:]))
    def go(w):
        unit, c, cmd = w; out = os.path.join(rdir, '%s.%s.json' % (unit, c))
        b = checks.UNITS[unit].get('case_budget', {}).get(c, {}).get(tier) or budget
        rc, o = run(cmd + ['--case', c, '--out', out, '--budget', str(b)] + (['--thorough'] if tier == 'thorough' else []), b + 90)
        try: r = json.load(open(out))
        except Exception: r = None
        return unit, c, rc, o, r
    with ThreadPoolExecutor(NJ) as ex: done = list(ex.map(go, work))
    viol, findings, bounded_runs = [], [], []
    conc_secs = 20 if tier == 'quick' else 120
    for unit, c, rc, o, r in done:
        if r is None:
            log('case died', unit, c, rc, o[-2000:]); degraded.append((unit, c, 'case process ended with %s: %s' % (rc, o[-500:]))); continue
        results.append((unit, c, r))
        log('%s.%s paths=%d complete=%s wall=%.1f solver=%.1f q=%d obl=%d failed=%d unknown=%d branch_unknown=%d' % (unit, c, r['paths'], r['complete'], r['wall_s'], r['solver_s'], r['queries'],
            sum(x['paths'] for x in r['obligations']), sum(x['failed'] for x in r['obligations']), sum(x['unknown'] for x in r['obligations']), r['branch_unknown']))
        bad = [v for v in r['violations'] if v['status'] == 'refuted']; unk = [v for v in r['violations'] if v['status'] != 'refuted']
        def is_known(v): return next((k for k in known if k['unit'] == unit and k['case'] == c and k['label'] == v['label']), None)
        nb = []
        for v in bad:
            k = is_known(v)
            if k:
                if k not in findings: findings.append(k)
            else: nb.append(v)
        bad = nb
        if bad:
            for v in bad[:3]: log('  REFUTED', v['label'], json.dumps(v['inputs'])[:600])
            path = os.path.join(rdir, 'replay_%s_%s.txt' % (unit, c)); found = None; note = ''
            try: found, note = try_concrete(unit, c, bad, conc_secs, path, seed)
            except BuildError as e: note = 'concrete replay build failed: ' + str(e)[-800:]
            log('  replay:', found, note)
            with open(path, 'a') as f:
                f.write('unit %s\nresult %s\nreplay_cmd python3 /verif/kvrun.py %s --replay %s\n' % (unit, note, prop, path))
                f.write('failed obligation: %s / %s\n' % (c, '; '.join(sorted({v['label'] for v in bad}))))
                for v in bad[:2]: f.write('--- verifier output for "%s" (sat = refuted)\nmodel: %s\n%s\n' % (v['label'], json.dumps(v['inputs']), v['smt'][:8000]))
            viol.append((c, sorted({v['label'] for v in bad}), path, bool(found)))
        elif unk or not r['complete'] or r['branch_unknown']:
            und = sorted({v['label'] for v in unk})
            for v in unk[:4]: log('  UNKNOWN', v['label'])
            path = os.path.join(rdir, 'replay_%s_%s.txt' % (unit, c))
            if (und or not r['complete']) and not ARGS.noconc:
                try:
                    found, note = try_concrete(unit, c, [v for v in unk if not is_known(v)], conc_secs, path, seed)
                    if found:
                        lab = re.search(r'FAILED (.*)', note); lab = lab.group(1) if lab else '?'
                        k = is_known({'label': lab})
                        if k: findings.append(k) if k not in findings else None
                        else: open(path, 'a').write('unit %s\nresult %s\n' % (unit, note)); viol.append((c, [lab], path, True))
                    else: bounded_runs.append(dict(case=c, undecided=und, paths_complete=r['complete'], concrete=note))
                except BuildError as e: errors.append(str(e)[-800:])
    for unit, pat, why in degraded:   # the symbolic build or run is not available: bounded concrete stand-in
        try:
            cmd = unit_cmd(unit, 'conc')
            for c in list_cases(cmd):
                if not re.fullmatch(pat, c): continue
                path = os.path.join(rdir, 'replay_%s_%s.txt' % (unit, c))
                found, note = try_concrete(unit, c, [], conc_secs, path, seed)
                lab = re.search(r'FAILED (.*)', note or ''); lab = lab.group(1) if lab else '?'
                k = next((k for k in known if k['unit'] == unit and k['case'] == c and k['label'] == lab), None) if found else None
                if k: findings.append(k) if k not in findings else None
                elif found: open(path, 'a').write('unit %s\nresult %s\n' % (unit, note)); viol.append((c, [lab], path, True))
                else: bounded_runs.append(dict(case=c, undecided=['(no symbolic run)'], concrete=note, why=why[-300:]))
        except BuildError as e:
            errors.append('neither the deductive nor the concrete harness of %s builds: %s' % (unit, str(e)[-1500:]))
    # vacuity
    for unit, c, r in results:
        if not any(x['paths'] for x in r['obligations']) and not r['violations']: errors.append('vacuous case %s.%s: no obligation reached' % (unit, c))
    ob = sum(x['paths'] for _, _, r in results for x in r['obligations']); dis = sum(x['by_nf'] + x['by_smt'] + x.get('by_conc', 0) for _, _, r in results for x in r['obligations'])
    A = sorted({a for _, _, r in results for a in r['assumptions']} | set(checks.TRUSTED) | set(spec.get('assumptions', [])))
    backends = {}
    for _, _, r in results:
        for x in r['obligations']:
            backends['normal form (exact rational function identity)'] = backends.get('normal form (exact rational function identity)', 0) + x['by_nf']
            for b in x['backends']: backends[b] = backends.get(b, 0) + x['by_smt']
    ev = dict(property=prop, tier=tier, seed=seed, level=spec['level'], wall_s=round(time.time() - t0, 2), violations=len(viol), assumptions=A,
      coverage=dict(obligations=ob, discharged=dis, checker_cmd='python3 /verif/kvrun.py %s --tier %s' % (prop, tier),
        trusted_base=checks.TRUSTED,
        functions_under_contract=sorted({x for _, _, r in results for x in r['contracts']}),
        contract_cases=[dict(case=u + '.' + c, paths=r['paths'], infeasible_paths=r['infeasible'], all_paths_explored=r['complete'], branch_unknown=r['branch_unknown'],
            obligations=[dict(label=x['label'], paths=x['paths'], normal_form=x['by_nf'], smt=x['by_smt'], failed=x['failed'], undecided=x['unknown'], backends=x['backends'], secs=round(x['secs'], 3)) for x in r['obligations']],
            covers=r['covers'], assumed_definedness=r['assumed_definedness'], solver_s=round(r['solver_s'], 2), wall_s=round(r['wall_s'], 2), bounded=r['bounded']) for u, c, r in results],
        backends=backends, solver_seconds=round(sum(r['solver_s'] for _, _, r in results), 2),
        bounded=sorted({b for _, _, r in results for b in r['bounded']}), undecided_or_bounded_runs=bounded_runs,
        explanation='contracts checked against the real source by verification-condition generation (every path of every listed case); obligations of cases that fix a shape are counted under obligations_in_bounded_shapes as well; see contract_cases',
        obligations_in_bounded_shapes=sum(x['paths'] for _, _, r in results if r['bounded'] for x in r['obligations'])))
    if not ARGS.case and not ARGS.unit:
        os.makedirs(V + '/evidence', exist_ok=True); json.dump(ev, open(V + '/evidence/%s.json' % prop, 'w'), indent=1)
    open(rdir + '/log.txt', 'w').write('\n'.join(LOG))
    for k in findings: print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    print('%s: %d obligations, %d discharged, %d contract cases, %.0fs' % (prop, ob, dis, len(results), time.time() - t0))
    for c, labs, path, conc in viol:
        print('failed obligation: %s: %s' % (c, '; '.join(labs)))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if conc else ' no-failing-input-found'))
    if viol: return 1
    if errors:
        print('ERROR', *errors, sep='\n'); return 2
    return 0
def replay(prop, path):
    case = unit = None
    for l in open(path):
        if l.startswith('case '): case = l[5:].strip()
        if l.startswith('unit '): unit = l[5:].strip()
    rc, o = run(unit_cmd(unit, 'conc') + ['--case', case, '--replay', path], 300); print(o); return rc
if __name__ == '__main__':
    ap = argparse.ArgumentParser(); ap.add_argument('prop', nargs='?');ap.add_argument('--setup', action='store_true'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--unit'); ap.add_argument('--case')
    ap.add_argument('-v', action='store_true'); ap.add_argument('--replay'); ap.add_argument('--noconc', action='store_true'); ARGS = ap.parse_args()
    if ARGS.setup:
        ARGS.v = True; common('sym'); common('conc'); sys.exit(0)
    if ARGS.replay: sys.exit(replay(ARGS.prop, ARGS.replay))
    sys.exit(main())
