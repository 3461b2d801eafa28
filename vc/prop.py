"""Runs one property: build, contract jobs in parallel, driver, evidence, verdict."""
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import build
from . import solver
from .exec import Unsupported, short
from .spec import Env, Failed

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

BASE_ASSUMPTIONS = [
    'clang 18 front end at -O0 plus the SSA-forming passes preserve the meaning of the source (the verified text is the '
    'LLVM IR of /repo\'s current source, regenerated on every run)',
    'images, kernels and arrays passed to one call satisfy their class invariant and lie in distinct storage unless a case '
    'says otherwise; storage has at most 2^31 elements and w*h, h*stride, offset+h*stride do not exceed 2^32',
    'signed integer overflow wraps (two\'s complement); sums are compared in the accumulator type of the code',
    'operator new never fails; std::string (exception texts) has no other effects',
    'floating point values are not NaN (they are totally ordered; +0 and -0 identified); floating point operations are uninterpreted functions of their operands (IEEE, commutative + and *, x*1=x, x/1=x, '
    'x+0=x up to the sign of zero): results are compared as the same sequence of operations, not up to rounding',
]


class Prop:
    def __init__(self, pid, spec, jobs, driver=None, assumptions=(), not_proved=(), level='proof', budget=300,
                 driver_flags=()):
        self.id, self.spec, self.jobs, self.driver = pid, spec, jobs, driver
        self.assumptions, self.not_proved, self.level, self.budget = list(assumptions), list(not_proved), level, budget
        self.driver_flags = list(driver_flags)


_mods = {}
_prop = None
_paths = None


def _init(prop, paths):
    global _prop, _paths
    _prop, _paths = prop, paths


def module(pipe):
    if pipe not in _mods:
        _mods[pipe] = build.load(_prop.spec, os.path.join(_paths, 'h%d.ll' % pipe))
    return _mods[pipe]


def run_job(i, pipe=0):
    """executes a contract case; returns a picklable summary"""
    name, fn, kw = _prop.jobs[i]
    t0 = time.time()
    st0 = dict(solver.STAT)
    m = module(pipe)
    out = {'job': name, 'obls': [], 'error': None, 'used': [], 'inlined': [], 'trusted': [], 'vac': [], 'consts': [],
           'models': []}
    envs = []

    def mk(suffix='', **k):
        e = Env(m, name + suffix, budget=_prop.budget, **k)
        envs.append(e)
        return e
    try:
        fn(mk, **kw)
    except Unsupported as e:
        out['error'] = ('unsupported', str(e))
    except Failed as e:
        out['error'] = ('failed', str(e))
    except RecursionError:
        out['error'] = ('unsupported', 'recursion limit')
    except Exception:
        out['error'] = ('engine', traceback.format_exc()[-3000:])
    fns = set()
    for e in envs:
        for o in e.ex.obls:
            out['obls'].append((o.name, o.ok, o.status, o.by, round(o.secs, 4), o.goal))
            if not o.ok and o.model:
                out['models'].append(str(o.model)[:4000])
        out['used'] += sorted(e.ex.used_contracts)
        out['inlined'] += sorted(e.ex.inlined)
        out['trusted'] += sorted(e.ex.trusted)
        out['vac'] += e.vacuity
        if getattr(e, 'fn', None):
            out.setdefault('fns', []).append(short(e.fn.dname))
            fns.add(e.fn)
    out['secs'] = time.time() - t0
    out['stat'] = {k: solver.STAT[k] - st0.get(k, 0) for k in solver.STAT}
    out['consts'] = sorted(consts_of(m))
    out['ops'] = len(out['obls'])
    return out


def consts_of(m):
    """constants compared against in the loaded functions: hints for the replay driver"""
    c = set()
    for f in m.cache.values():
        for b in f.blocks:
            for i in b.insts:
                if i.op in ('icmp', 'switch', 'urem', 'udiv', 'srem', 'sdiv', 'and', 'select', 'call'):
                    for o in i.ops:
                        if o.kind == 'const' and isinstance(o.v, int):
                            v = o.v
                            if v >= 1 << 31:
                                v -= 1 << 32
                            if 2 <= abs(v) <= 5000:
                                c.add(v)
                    if i.op == 'switch':
                        for v in i.x:
                            if 2 <= abs(v) <= 5000:
                                c.add(v)
    return c


def bad(r):
    if r['error'] is not None:
        return True
    if any(v == 'unsat' for _, v in r['vac']):
        return True
    if not r['obls']:
        return True
    return any(not o[1] for o in r['obls'])


def check(pid, tier='quick', verbose=False, only=None, nodriver=False, keep=False):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    pm = importlib.import_module('contracts.' + pid)
    prop = pm.PROP
    if only:
        prop.jobs = [j for j in prop.jobs if only in j[0]]
    work = tempfile.mkdtemp(prefix='vc_%s_' % pid)
    outdir = os.path.join(ROOT, 'evidence')
    os.makedirs(outdir, exist_ok=True)
    replay = os.path.join(outdir, pid + '.replay.txt')
    if os.path.exists(replay):
        os.remove(replay)
    try:
        return _check(prop, pid, tier, seed, work, outdir, replay, t0, verbose, nodriver)
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)


def start_driver(prop, work):
    """compiles the replay driver in the background"""
    if not prop.driver:
        return None
    exe = os.path.join(work, 'driver')
    build.all_sources(work)
    cmd = ['g++', '-std=c++11', '-O1', '-g1', '-fsanitize=address', '-w', '-fno-omit-frame-pointer'] + prop.driver_flags + \
          ['-I' + work] + ['-I' + i for i in build.INC] + ['-I' + os.path.join(ROOT, 'drivers'), os.path.join(ROOT, 'drivers', prop.driver),
                                           '-o', exe]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p, exe, cmd


def run_driver(drv, seed, secs, hints, work):
    """(status, text): 'quiet', 'fail', 'error'"""
    p, exe, cmd = drv
    env = dict(os.environ)
    env.update(ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_malloc_fill_size=65536',
               VC_SECS=str(secs), VC_SEED=str(seed), VC_HINTS=','.join(map(str, hints)))
    try:
        r = subprocess.run([exe], capture_output=True, text=True, errors='replace', timeout=secs * 3 + 60, env=env, cwd=work)
    except subprocess.TimeoutExpired as e:
        t = (e.stdout or b'')
        return 'fail', 'driver does not terminate\n' + (t if isinstance(t, str) else t.decode('utf8', 'replace'))[-4000:]
    if r.returncode == 0:
        return 'quiet', r.stdout
    return 'fail', 'exit code %d\n%s\n%s' % (r.returncode, r.stdout[-6000:], r.stderr[-8000:])


def _check(prop, pid, tier, seed, work, outdir, replay, t0, verbose, nodriver):
    build_err = None
    paths = {}
    drv = None if nodriver else start_driver(prop, work)
    results = []
    if prop.jobs:
        try:
            paths[0] = build.compile_ir(prop.spec, work, 0)
        except build.BuildError as e:
            build_err = str(e)
    ncpu = min(8, os.cpu_count() or 4)
    if prop.jobs and not build_err:
        ctx = mp.get_context('fork')
        with ctx.Pool(ncpu, _init, (prop, work), maxtasksperchild=8) as pool:
            pend = [pool.apply_async(run_job, (i, 0)) for i in range(len(prop.jobs))]
            results = [p.get() for p in pend]
            # another normalisation of the same source for the jobs that did not go through
            for pipe in (1, 2):
                redo = [i for i, r in enumerate(results) if bad(r)]
                if not redo or time.time() - t0 > 250:
                    break
                try:
                    build.compile_ir(prop.spec, work, pipe)
                except build.BuildError:
                    continue
                again = [(i, pool.apply_async(run_job, (i, pipe))) for i in redo]
                for i, a in again:
                    r = a.get()
                    if not bad(r):
                        r['pipe'] = pipe
                        results[i] = r
    nobl = sum(len(r['obls']) for r in results)
    ndis = sum(1 for r in results for o in r['obls'] if o[1])
    failed = [(r, o) for r in results for o in r['obls'] if not o[1]]
    errors = [r for r in results if r['error'] is not None]
    vac = [(r['job'], v) for r in results for v in r['vac'] if v[1] == 'unsat']
    empty = [r['job'] for r in results if not r['obls'] and r['error'] is None]
    clean = not failed and not errors and not vac and not empty and not build_err and prop.jobs
    hints = sorted(set(c for r in results for c in r['consts']), key=abs)[:120]
    # ---- driver
    dstat, dtext, dsecs = None, '', 0
    if drv:
        so, _ = drv[0].communicate()
        if drv[0].returncode:
            dstat, dtext = 'nobuild', so[-4000:]
        else:
            if tier == 'thorough':
                secs = 240
            else:
                secs = 6 if clean else 75
            if not prop.jobs:
                secs = 60 if tier == 'quick' else 400
            secs = int(os.environ.get('VC_DRIVER_SECS', secs))
            t1 = time.time()
            dstat, dtext = run_driver(drv, seed, secs, hints, work)
            dsecs = time.time() - t1
    # ---- evidence
    by = {}
    secs = 0.0
    for r in results:
        for o in r['obls']:
            if o[1]:
                by[o[3] or 'syntactic'] = by.get(o[3] or 'syntactic', 0) + 1
            secs += o[4]
    fns = sorted(set(f for r in results for f in r.get('fns', [])))
    evals = 0
    samples = []
    for l in dtext.split('\n'):
        if l.startswith('CASES '):
            evals = int(l.split()[1])
        if l.startswith('SAMPLE '):
            samples.append(l[7:])
    lvl = prop.level
    cov = {
        'obligations': nobl, 'discharged': ndis,
        'checker_cmd': 'python3-vt /verif/check.py %s --tier %s   (z3 %s; cvc5 for obligations z3 leaves open)' % (pid, tier, zver()),
        'trusted_base': sorted(set(t for r in results for t in r['trusted'])) + [
            'vc/: symbolic executor, loop summariser, simplifier (term.py) and solver front end of this framework',
            'clang-18/opt-18 (IR generation), z3, cvc5'],
        'functions_under_contract': fns,
        'contract_cases': [r['job'] for r in results],
        'callee_contracts_used': sorted(set(u for r in results for u in r['used'])),
        'functions_inlined': sorted(set(u for r in results for u in r['inlined'])),
        'discharged_by': by, 'solver_seconds': round(secs, 2),
        'solver_calls': {k: round(sum(r['stat'].get(k, 0) for r in results), 2) for k in (results[0]['stat'] if results else {})},
        'vacuity_checks': sum(len(r['vac']) for r in results),
        'vacuous': vac, 'undischarged': [o[0] for r, o in failed][:50],
        'not_supported': [(r['job'], r['error'][1][-300:]) for r in errors][:20],
        'fallback_normalisations': [(r['job'], r['pipe']) for r in results if r.get('pipe')],
        'driver': prop.driver, 'driver_status': dstat, 'driver_seconds': round(dsecs, 1),
        'evaluations': evals, 'samples': samples[:5] or [r['job'] for r in results][:5],
    }
    if lvl != 'proof':
        cov['rule'] = getattr(prop, 'rule', 'generated cases; non-trivial: non-empty image')
        cov['distinct_nontrivial'] = evals
        cov['explanation'] = getattr(prop, 'explanation', 'bounded stand-in')
        for l in dtext.split('\n'):
            if l.startswith('DISTINCT '):
                cov['distinct_nontrivial'] = int(l.split()[1])
    bounded = [r['job'] for r in errors] + (['all: harness does not build: ' + build_err[:500]] if build_err else [])
    if bounded:
        cov['bounded_stand_in'] = {'cases': bounded, 'bound': 'driver: %d generated cases in %.0f s' % (evals, dsecs)}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': lvl, 'coverage': cov,
          'assumptions': BASE_ASSUMPTIONS + prop.assumptions + ['NOT PROVED: ' + x for x in prop.not_proved],
          'wall_s': round(time.time() - t0, 1), 'violations': 0}
    rc = 0
    lines = []
    if dstat == 'fail':
        rc = 1
        with open(replay, 'w') as f:
            f.write('property %s: failing input found by replaying against the real code\n' % pid)
            f.write('command: %s && VC_SEED=%d VC_HINTS=%s %s\n\n' % (' '.join(drv[2]), seed, ','.join(map(str, hints)), drv[1]))
            f.write(dtext + '\n')
            dump(f, failed, errors)
        lines.append('VIOLATION property=%s replay=%s' % (pid, replay))
    elif failed or vac or empty or any(r['error'][0] == 'failed' for r in errors):
        rc = 1
        with open(replay, 'w') as f:
            f.write('property %s: obligations not discharged; no failing input found\n' % pid)
            dump(f, failed, errors)
            for v in vac:
                f.write('vacuous: %s\n' % (v,))
            f.write('driver: %s %s\n' % (dstat, dtext[-2000:]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay))
    elif any(r['error'][0] == 'engine' for r in errors) or build_err or dstat == 'nobuild' or errors:
        # outside of the verifier's reach: the bounded driver decides
        if dstat == 'quiet':
            print('NOTE property=%s: %d of %d contract cases outside of the verifier\'s reach, decided by the bounded driver only' % (
                pid, len(errors) or len(prop.jobs), len(prop.jobs)))
        else:
            rc = 2
            print('ERROR property=%s: neither verifier nor driver could decide' % pid)
            print((build_err or dtext)[-3000:])
    for r in errors:
        print('  not supported: %s: %s' % (r['job'], r['error'][1][-1500 if verbose else -300:]))
    for r, o in failed[:30 if verbose else 8]:
        print('  not discharged: %s [%s] %s' % (o[0], o[2], (o[5] or '')[:3000 if verbose else 300]))
    ev['violations'] = 1 if rc == 1 else 0
    with open(os.path.join(outdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    kf = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith('finding: property=%s ' % pid):
                print('KNOWN-FINDING: property=%s %s' % (pid, l.split(' ', 2)[2].strip()))
    print('%s: %d/%d obligations, %d cases, %d functions, solver %.1f s, driver %s (%d cases), wall %.1f s' % (
        pid, ndis, nobl, len(results), len(fns), secs, dstat, evals, time.time() - t0))
    if verbose:
        for r in results:
            print('   %-60s %6.1fs %d obligations%s' % (r['job'], r['secs'], len(r['obls']), ' BAD' if bad(r) else ''))
    for l in lines:
        print(l)
    return rc


def dump(f, failed, errors):
    for r, o in failed:
        f.write('failed obligation: %s\n  status: %s  back end: %s\n  %s\n' % (o[0], o[2], o[3], o[5]))
    for r in errors:
        f.write('not supported: %s: %s\n' % (r['job'], r['error'][1]))
    for r, o in failed[:5]:
        for m in r['models'][:2]:
            f.write('counterexample of the verifier: %s\n' % m)


def zver():
    import z3
    return z3.get_version_string()
