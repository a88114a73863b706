#!/usr/bin/env python3-vt
"""check.py <property> : decides one property of BLASTed from /repo's current sources.

1. proof: every contract task of the property is executed by the deductive verifier in dv/ (obligations -> z3 / cvc5);
2. conformance: the same contracts are exercised on the compiled code (drivers/<name>.cpp; bounded, never counted as proved).
   It validates the trusted contracts (Eigen, std, OpenMP runtime) and supplies the failing input for a violation.
Exit 0: every obligation accepted and no concrete failure.  Exit 1: VIOLATION line.
"""
import sys, os, json, time, subprocess, tempfile, shutil, importlib, hashlib, signal, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'dv'))
sys.setrecursionlimit(20000)
REPO = os.environ.get('DV_REPO', '/repo')
from multiprocessing import Pool
import props

NPROC = int(os.environ.get('DV_NPROC', '8'))


def run_one(a):
    mod, i, scale = a
    sys.setrecursionlimit(20000)
    import resource
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    import fw
    try:
        m = importlib.import_module('specs.' + mod)
        t = m.TASKS[i]
        t.budget = t.budget * scale
        r = fw.run_task(t)
    except MemoryError:
        r = dict(task='%s#%d' % (mod, i), ok=False, obls=[], error='memory limit', secs=0, solver_s=0, functions=[], inlined=[], loops=0,
                 invs=0, queries=0, where='')
    except BaseException as e:
        r = dict(task='%s#%d' % (mod, i), ok=False, obls=[], error='verifier crashed: %r' % e, secs=0, solver_s=0, functions=[],
                 inlined=[], loops=0, invs=0, queries=0, where='')
    r['mod'], r['idx'] = mod, i
    return r


def tasks_of(P, tier):
    out = []
    for sp in P['specs']:
        mod, flt = (sp, None) if isinstance(sp, str) else sp
        m = importlib.import_module('specs.' + mod)
        for i, t in enumerate(m.TASKS):
            if flt is None or flt(t):
                if tier == 'quick' and getattr(t, 'thorough_only', False):
                    continue
                out.append((mod, i, t.budget))
    return out


def prove_all(P, tier, deadline):
    """all tasks in a pool; a task whose worker dies or that is not finished at the deadline is a failed task"""
    todo = tasks_of(P, tier)
    todo.sort(key=lambda x: -x[2])
    res = []
    with Pool(NPROC, maxtasksperchild=1) as p:
        hs = [(mod, i, p.apply_async(run_one, ((mod, i, 1),))) for mod, i, _ in todo]
        for mod, i, h in hs:
            left = max(1.0, deadline - time.time())
            try:
                res.append(h.get(timeout=left))
            except Exception as e:
                m = importlib.import_module('specs.' + mod)
                res.append(dict(task=m.TASKS[i].name, ok=False, obls=[], error='verification did not finish in the time limit',
                                secs=0, solver_s=0, functions=[], inlined=[], loops=0, invs=0, queries=0, where='', mod=mod, idx=i))
        p.terminate()
    return res


# ------------------------------------------------------------------------------------------------ compiled conformance
BASE = ['-std=c++14', '-fopenmp', '-msse4.2', '-g', '-UNDEBUG', '-DEIGEN_DONT_PARALLELIZE', '-w',
        '-I' + REPO + '/include', '-I' + REPO + '/src', '-I/usr/include/eigen3', '-I' + HERE + '/drivers']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']


def build_driver(D, tmp, logf):
    n0 = len(logf)
    exe = build_driver1(D, tmp, logf)
    if exe is None and any('undefined reference' in l for l in logf[n0:]):
        # a definition moved to another file: link the whole library
        exe = build_driver1(dict(D, repo=props.allsrc(REPO)), tmp, logf)
    return exe


def build_driver1(D, tmp, logf):
    opt = D.get('opt', '-O1')
    flags = BASE + [opt] + (SAN if D.get('san', True) else []) + D.get('flags', [])
    srcs = [os.path.join(HERE, 'drivers', D['src'])] + [os.path.join(REPO, s) for s in D.get('repo', [])]
    procs, objs = [], []
    for k, s in enumerate(srcs):
        o = os.path.join(tmp, 'o%d.o' % k)
        objs.append(o)
        procs.append((s, subprocess.Popen(['g++'] + flags + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    ok = True
    for s, p in procs:
        out = p.communicate()[0].decode(errors='replace')
        if p.returncode != 0:
            ok = False
            logf.append('compile of %s failed:\n%s' % (s, out[:3000]))
    if not ok:
        return None
    exe = os.path.join(tmp, 'driver')
    p = subprocess.run(['g++'] + flags + objs + ['-o', exe] + D.get('libs', ['-lboost_program_options']), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if p.returncode != 0:
        logf.append('link failed:\n' + p.stdout.decode(errors='replace')[:3000])
        return None
    return exe


def run_driver(exe, D, seed, cases, threads, tmp, limit):
    env = dict(os.environ, OMP_NUM_THREADS=str(threads), OMP_DYNAMIC='false', OMP_WAIT_POLICY='passive',
               ASAN_OPTIONS='detect_leaks=%d:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0' % (1 if D.get('leaks') else 0),
               UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1', LSAN_OPTIONS='exitcode=67')
    cmd = [exe, str(seed), str(cases)]
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=tmp, timeout=limit)
        out, rc = p.stdout.decode(errors='replace'), p.returncode
        if rc != 0 and 'LeakSanitizer has encountered a fatal error' in out:
            # ptrace is not permitted here: run without leak detection
            env['ASAN_OPTIONS'] = env['ASAN_OPTIONS'].replace('detect_leaks=1', 'detect_leaks=0')
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=tmp, timeout=limit)
            out, rc = p.stdout.decode(errors='replace'), p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b'').decode(errors='replace') + '\nTIMEOUT: the code under test did not terminate', 124
    return rc, out, time.time() - t


def conformance(P, tier, seed, tmp, deadline, extra=1):
    """list of failures, stats"""
    fails, stats, logs = [], dict(evaluations=0, distinct=0, runs=[], samples=[]), []
    for k, D in enumerate(P.get('drivers', [])):
        d = os.path.join(tmp, 'd%d' % k)
        os.mkdir(d)
        exe = build_driver(D, d, logs)
        if exe is None:
            fails.append(dict(driver=D['src'], error='build', output='\n'.join(logs)))
            continue
        base = D.get('cases', {}).get(tier, 200) * extra
        for th in D.get('threads', [1, 3]):
            left = deadline - time.time()
            if left < 5:
                stats['runs'].append('%s threads=%d skipped (time)' % (D['src'], th))
                continue
            rc, out, secs = run_driver(exe, D, seed, base, th, d, min(left, 400))
            lines = out.strip().split('\n')
            n = 0
            for l in lines:
                if l.startswith('CASES '):
                    n = int(l.split()[1])
                if l.startswith('DISTINCT ') and th == D.get('threads', [1, 3])[0]:
                    stats['distinct'] += int(l.split()[1])      # the same cases are run for every thread count
                if l.startswith('SAMPLE ') and len(stats['samples']) < 6:
                    stats['samples'].append(l[7:])
            stats['evaluations'] += n
            stats['runs'].append('%s seed=%d cases=%d threads=%d rc=%d %.1fs' % (D['src'], seed, n, th, rc, secs))
            if rc == 124 and left < 60:
                continue
            if rc != 0:
                # a time-out is only believed when it repeats
                if rc == 124:
                    rc2, out2, _ = run_driver(exe, D, seed, base, th, d, min(max(10, deadline - time.time()), 400))
                    if rc2 == 0:
                        continue
                tail = [l for l in lines if l.startswith(('FAIL', 'CASE', 'INPUT', 'ERROR', '==', 'Assert', 'driver', 'TIMEOUT', 'KNOWN'))
                        or 'runtime error' in l or 'Assertion' in l or 'ERROR' in l]
                fails.append(dict(driver=D['src'], seed=seed, cases=base, threads=th, rc=rc, key=fail_key(lines),
                                  summary='\n'.join(tail[-25:]), output='\n'.join(lines[-80:]),
                                  rerun='g++ %s ... && OMP_NUM_THREADS=%d ./driver %d %d' % (D['src'], th, seed, base)))
                break
    return fails, stats, logs


def fail_key(lines):
    for l in lines:
        if l.startswith('FAIL '):
            return l[5:].split(':')[0].strip()
    return 'crash'


def load_known():
    out = []
    f = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('known: '):
                # known: property=<id> key=<driver key> | obligation=<name@function> <what fails>
                d = {}
                rest = l[len('known: '):]
                head, _, what = rest.partition(' -- ')
                for w in head.split():
                    if '=' in w:
                        a, b = w.split('=', 1)
                        d[a] = b
                d['what'] = what
                out.append(d)
    return out


def main():
    if os.environ.get('PYTHONHASHSEED') != '0':   # the same queries in the same order on every run
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    P = props.PROPS[pid]
    t0 = time.time()
    total = 780 if tier == 'quick' else 3000
    tmp = tempfile.mkdtemp(prefix='dv_%s_' % pid)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    import terms
    errs = []
    try:
        if not terms.lemma_selfcheck():
            errs.append('lemma self-check failed')
        # the compiled conformance runs first: when it already has a failing input, a failed obligation is not retried
        fails, stats, logs = conformance(P, tier, seed, tmp, t0 + total * 0.4)
        quickly = any(f.get('error') != 'build' for f in fails)
        res = prove_all(P, tier, min(t0 + total * 0.6, time.time() + (150 if quickly else 1e9)))
        failed = [r for r in res if not r['ok']]
        # retry once, serially less loaded and with more time: a failure must not be a scheduling accident
        if failed and not quickly and len(failed) <= 8 and time.time() - t0 < total * 0.5:
            with Pool(min(4, NPROC), maxtasksperchild=1) as p:
                hs = [(r, p.apply_async(run_one, ((r['mod'], r['idx'], 2),))) for r in failed]
                for r, h in hs:
                    try:
                        r2 = h.get(timeout=max(1.0, t0 + total * 0.75 - time.time()))
                    except Exception:
                        continue
                    if r2['ok']:
                        res[res.index(r)] = r2
                p.terminate()
            failed = [r for r in res if not r['ok']]
        if failed and not fails:
            f2, s2, l2 = [], None, None
            sub = os.path.join(tmp, 'more')
            os.mkdir(sub)
            f2, s2, l2 = conformance(P, tier, seed + 1000, sub, t0 + total * 0.97, extra=5)
            fails += f2
            stats['evaluations'] += s2['evaluations']
            stats['runs'] += s2['runs']
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if P['specs'] and not res:
        errs.append('no verification task')
    nob = sum(len(r['obls']) for r in res) + sum(1 for r in res if r['error'])
    nok = sum(1 for r in res for o in r['obls'] if o[2])
    how = {}
    for r in res:
        for o in r['obls']:
            if o[2]:
                how[o[3]] = how.get(o[3], 0) + 1
    known = [k for k in load_known() if k.get('property') == pid]
    news, olds = [], []
    for f in fails:
        hit = [k for k in known if k.get('key') == f.get('key')]
        (olds if hit else news).append((f, hit))
    viol = bool(failed or news or errs)
    samples = []
    for r in res[:40]:
        if r['obls']:
            o = r['obls'][-1]
            samples.append('%s: %s [%s]' % (r['task'], o[0], o[3]))
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get('level', 'proof'), wall_s=round(time.time() - t0, 1),
              violations=(len(failed) + len(news)),
              coverage=dict(
                  obligations=nob, discharged=nok, checker_cmd='python3-vt /verif/check.py %s' % pid,
                  trusted_base=props.TRUSTED + P.get('trusted', []),
                  backends=how, solver_s=round(sum(r['solver_s'] for r in res), 1), queries=sum(r['queries'] for r in res),
                  functions_under_contract=sorted({f for r in res for f in r['functions']}),
                  functions_interpreted_inline=sorted({f for r in res for f in r['inlined']}),
                  loops=sum(r['loops'] for r in res), invariants=sum(r['invs'] for r in res),
                  contracts_used_at_calls=sorted({c for r in res for c in r.get('contracts', [])}),
                  tasks=[dict(task=r['task'], ok=r['ok'], obligations=len(r['obls']), secs=round(r['secs'], 1), at=r['where'],
                              error=r['error']) for r in res],
                  bounded_conformance=dict(label='bounded, not counted as proved', evaluations=stats['evaluations'], distinct=stats['distinct'],
                                           runs=stats['runs'], rule=P.get('driver_rule', props.DRIVER_RULE)),
                  samples=samples),
              assumptions=props.ASSUMPTIONS + P.get('assumptions', []))
    if P.get('level') == 'exploration':
        ev['coverage'].update(evaluations=stats['evaluations'], distinct_nontrivial=stats['distinct'], samples=stats['samples'] or samples,
                              rule=P.get('driver_rule', props.DRIVER_RULE))
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in known:
        if k.get('key'):
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s: %d/%d obligations discharged over %d functions, %d concrete cases, %.1fs' % (
        pid, nok, nob, len(ev['coverage']['functions_under_contract']), stats['evaluations'], time.time() - t0))
    if not viol:
        sys.exit(0)
    rep = os.path.join(HERE, 'replay', '%s.txt' % pid)
    with open(rep, 'w') as f:
        f.write('property %s: %s\n' % (pid, P['title']))
        for e in errs:
            f.write('error: %s\n' % e)
        for r in failed:
            f.write('\nfunction under contract: %s (%s)\n' % (r['task'], r['where']))
            if r['error']:
                f.write('  not accepted by the verifier: %s\n' % r['error'])
            for o in r['obls']:
                if not o[2]:
                    f.write('  FAILED OBLIGATION: %s at %s  [%s]\n    goal: %s\n' % (o[0], o[1], o[3], o[5]))
                    if o[6]:
                        f.write('    solver model: %s\n' % '; '.join(o[6]))
        for fl, _ in news:
            f.write('\nCONCRETE FAILURE on the compiled code (%s)\n%s\nlast output:\n%s\n' % (
                fl.get('rerun', fl['driver']), fl.get('summary', fl.get('error')), fl['output']))
    for r in failed:
        bad = [o for o in r['obls'] if not o[2]]
        for o in bad[:4]:
            print('failed obligation: %s: %s at %s' % (r['task'], o[0], o[1]))
        if r['error']:
            print('not accepted: %s: %s' % (r['task'], r['error'][:300]))
    for fl, _ in news:
        print('concrete failure: %s' % (fl.get('summary') or fl.get('output', ''))[:600].replace('\n', ' | '))
    concrete = any(f.get('error') != 'build' for f, _ in news)
    print('VIOLATION property=%s replay=%s%s' % (pid, rep, '' if concrete else ' no-failing-input-found'))
    sys.exit(1)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        pid = sys.argv[1] if len(sys.argv) > 1 else '?'
        rep = os.path.join(HERE, 'replay', '%s.txt' % pid)
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        open(rep, 'w').write('the check itself failed:\n' + traceback.format_exc())
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rep))
        sys.exit(1)
