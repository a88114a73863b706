"""Discharging one obligation: pc |= goal.  Back ends: z3 (API), then cvc5 (binary) on the SMT-LIB text."""
import z3, time, subprocess, tempfile, os
import terms

STATS = {'z3': 0, 'cvc5': 0, 'z3-retry': 0, 'queries': 0}
SLOW = float(os.environ.get('DV_SLOW', '0'))
USE_CVC5 = os.environ.get('DV_CVC5', '1') == '1'


class Res:
    __slots__ = ('ok', 'how', 'model')

    def __init__(self, ok, how, model=None):
        self.ok, self.how, self.model = ok, how, model


_cache = {}


def prepare(pc, goal):
    fs = list(pc)
    ng = z3.Not(goal)
    # skolemise the goal so that its ground sum terms are visible to the lemma instantiation
    g = z3.Goal()
    g.add(ng)
    try:
        r = z3.Tactic('nnf')(g)
        parts = [f for sub in r for f in sub]
    except z3.Z3Exception:
        parts = [ng]
    allf = fs + parts
    bl = terms.bilinear(allf)
    bl = bl + terms.mkfacts(allf)
    lem = bl + terms.lemma_instances(allf + bl)
    bg = []
    syms = terms.has_symbol(allf + lem, ('smul', 'upd', 'had'))
    if 'had' in syms:
        syms.add('smul')
    for s in syms:
        bg += terms.background()[s]
    return allf + lem + bg


def prove(pc, goal, timeout=8000, quick=False):
    STATS['queries'] += 1
    if z3.is_true(z3.simplify(goal)):
        return Res(True, 'simplify')
    fs = prepare(pc, goal)
    s = z3.SimpleSolver()
    s.set('timeout', timeout)
    s.set('smt.mbqi', False)
    s.add(*fs)
    t0 = time.time()
    r = s.check()
    if SLOW and time.time() - t0 > SLOW:
        STATS['slow'] = STATS.get('slow', 0) + 1
        open('/tmp/w/slow%d_%s.smt2' % (STATS['slow'], r), 'w').write(s.to_smt2())
    if r == z3.unsat:
        STATS['z3'] += 1
        return Res(True, 'z3')
    if quick:
        return Res(False, 'z3:' + str(r))
    if r == z3.sat:
        return Res(False, 'z3:sat', short_model(s.model()))
    return Res(False, 'z3:%s(%s)' % (r, s.reason_unknown()), None)


def prove_hard(pc, goal, timeout=20000):
    """portfolio used for final obligations that the fast configuration did not discharge"""
    fs = prepare(pc, goal)
    model = None
    for cfg in ({'smt.mbqi': True}, {'smt.mbqi': False, 'smt.random_seed': 7, 'smt.qi.eager_threshold': 100.0}):
        s2 = z3.SimpleSolver()
        s2.set('timeout', timeout // 2)
        for k, v in cfg.items():
            s2.set(k, v)
        s2.add(*fs)
        r2 = s2.check()
        if r2 == z3.unsat:
            STATS['z3-retry'] += 1
            return Res(True, 'z3(retry)')
        if r2 == z3.sat:
            return Res(False, 'z3:sat', short_model(s2.model()))
    if USE_CVC5 and cvc5(fs, timeout):
        STATS['cvc5'] += 1
        return Res(True, 'cvc5')
    return Res(False, 'unknown', model)


def cvc5(fs, timeout):
    s = z3.Solver()
    s.add(*fs)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        nm = f.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, nm], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout / 1000 + 5)
        return p.stdout.decode().strip().startswith('unsat')
    except Exception:
        return False
    finally:
        os.unlink(nm)


def short_model(m):
    out = []
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            t = str(v)
            if len(t) < 200:
                out.append('%s = %s' % (d.name(), t))
    return out[:60]
