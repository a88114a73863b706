"""OpenMP constructs.  A work-shared loop is executed as a loop; under policy 'sync' the obligation that no two distinct
iterations conflict on any array element is generated as well, which makes the serial result the result of every schedule."""
import re, z3
import engine as E
from astdb import inner, where
import astdb

_src = {}
_last = {}     # last statements of parallel regions


def text(n):
    w = where(n)
    r = (n.get('range') or {}).get('begin') or {}
    r = r.get('expansionLoc', r)
    f, l = r.get('_f'), r.get('_l')
    if not f or not l:
        return ''
    if f not in _src:
        try:
            _src[f] = open(f).read().split('\n')
        except OSError:
            _src[f] = []
    s = _src[f]
    out = ''
    i = l - 1
    while 0 <= i < len(s):
        out += s[i].split('//')[0].rstrip()
        if out.endswith('\\'):
            out = out[:-1] + ' '
            i += 1
            continue
        break
    return out


def body_of(n):
    for c in inner(n):
        k = c.get('kind')
        if k == 'CapturedStmt':
            for d in inner(c):
                if d.get('kind') == 'CapturedDecl':
                    for x in inner(d):
                        if x.get('kind') not in ('ImplicitParamDecl', 'VarDecl'):
                            return body_of_captured(x)
        elif k and not k.startswith('OMP') and not k.endswith('Decl') and k not in ('None',):
            return c
    return None


def body_of_captured(x):
    if x.get('kind') == 'CapturedStmt':
        for d in inner(x):
            if d.get('kind') == 'CapturedDecl':
                for y in inner(d):
                    if y.get('kind') not in ('ImplicitParamDecl', 'VarDecl'):
                        return body_of_captured(y)
    return x


def directive(ex, st, n):
    k = n['kind']
    b = body_of(n)
    ex.stats['par_loops'] += (ex.mode == 'final') and 'For' in k
    if k in ('OMPBarrierDirective', 'OMPTaskwaitDirective', 'OMPFlushDirective'):
        return [(st, E.Flow.NORMAL, None)]
    if k == 'OMPAtomicDirective' or k == 'OMPCriticalDirective':
        old = ex.atomic
        ex.atomic = True
        try:
            return ex.stmt(st, b)
        finally:
            ex.atomic = old
    if k in ('OMPSingleDirective', 'OMPMasterDirective', 'OMPSimdDirective', 'OMPTaskDirective'):
        return ex.stmt(st, b)
    tx = text(n)
    if 'Parallel' in k:
        return in_parallel(ex, st, n, b, tx, 'For' in k)
    if k in ('OMPForDirective', 'OMPForSimdDirective'):
        return workshare(ex, st, n, b, tx)
    raise E.Unsupported('directive %s at %s' % (k, where(n)))


def clause_vars(tx, names):
    out = set()
    for m in re.finditer(r'\b(' + '|'.join(names) + r')\s*\(\s*(?:[^:()]*:)?([^)]*)\)', tx):
        out |= {v.strip() for v in m.group(2).split(',')}
    return out


def in_parallel(ex, st, n, b, tx, isfor):
    shared = set(st.env.keys())
    priv = clause_vars(tx, ['private', 'firstprivate', 'lastprivate', 'reduction', 'linear'])
    names = {}
    old = ex.privcheck
    ivkeys = set()

    def check(s, lv, node):
        if ex.mode == 'dry' or ex.atomic:
            return
        key = lv.key
        if key in shared and key not in ivkeys:
            d = ex.curtu().decl.get(key[1]) or ex.tu.decl.get(key[1]) or {}
            if d.get('name') in priv:
                return
            ex.oblige(s, False, 'data-race: write to shared variable in parallel region', node)
    ex.privcheck = check
    try:
        if isfor:
            return workshare(ex, st, n, b, tx)
        if b.get('kind') == 'CompoundStmt' and inner(b):
            _last[id(inner(b)[-1])] = inner(b)[-1]
        if uses_thread_id(b):
            return spmd(ex, st, n, b)
        return ex.stmt(st, b)
    finally:
        ex.privcheck = old


def uses_thread_id(b):
    r = b.get('referencedDecl')
    if r and r.get('name') == 'omp_get_thread_num':
        return True
    return any(uses_thread_id(c) for c in inner(b))


_syn = {}


def spmd(ex, st, n, b):
    """a region executed by every thread, split at its barriers: phase k is a loop over the threads whose iterations must be independent.
    The phases before the last barrier may only read shared memory and set private variables; each thread re-evaluates them, on the memory
    the region started with, to obtain its private variables."""
    stmts = inner(b) if b.get('kind') == 'CompoundStmt' else [b]
    phases = [[]]
    for x in stmts:
        if x.get('kind') == 'OMPBarrierDirective':
            phases.append([])
        else:
            if has_barrier(x):
                raise E.Unsupported('barrier inside a nested statement at ' + where(x))
            phases[-1].append(x)
    pre = [x for p in phases[:-1] for x in p]
    key = id(n)
    if key not in _syn:
        tid = '__tid%d' % len(_syn)
        ref = lambda i: dict(kind='DeclRefExpr', referencedDecl=dict(id=i, kind='VarDecl', name=i), type=dict(qualType='int'), range=n.get('range'), inner=[])
        rv = lambda i: dict(kind='ImplicitCastExpr', castKind='LValueToRValue', type=dict(qualType='int'), inner=[ref(i)], range=n.get('range'))
        cond = dict(kind='BinaryOperator', opcode='<', type=dict(qualType='bool'), inner=[rv(tid), rv(tid + 'n')], range=n.get('range'))
        inc = dict(kind='UnaryOperator', opcode='++', type=dict(qualType='int'), inner=[ref(tid)], range=n.get('range'))
        body = dict(kind='SPMDBody', inner=phases[-1], pre=pre, tid=tid, range=n.get('range'))
        _syn[key] = (n, tid, cond, inc, body)
    _, tid, cond, inc, body = _syn[key]
    s = st.copy()
    kt, kn = (s.depth, tid), (s.depth, tid + 'n')
    s.env[kt], s.env[kn] = z3.IntVal(0), nthreads(ex, s)
    ex.localtypes[kt] = ex.localtypes[kn] = 'int'
    s.ghost['spmd_heap'] = dict(s.heap)
    s.ghost['spmd_tid'] = kt
    if pre:
        probe = s.copy()
        t0 = E.fresh('tid', z3.IntSort())
        probe.env[kt] = t0
        probe.assume(z3.And(0 <= t0, t0 < s.env[kn]))
        if writes(ex, probe, pre):
            raise E.Unsupported('shared memory is written before a barrier at ' + where(n))
    node = dict(kind='ForStmt', range=n.get('range'), inner=[None, None, cond, inc, body])
    if ex.par_policy in ('sync', 'async') and ex.mode == 'final':
        independence(ex, s.copy(), cond, inc, body, node, ex.par_policy)
    out = []
    for s2, fl, v in ex.loop(s, cond, inc, body, node):
        for k in ('spmd_heap', 'spmd_tid'):
            s2.ghost.pop(k, None)
        s2.env.pop(kt, None)
        s2.env.pop(kn, None)
        out.append((s2, fl, v))
    return out


def has_barrier(x):
    return x.get('kind') == 'OMPBarrierDirective' or any(has_barrier(c) for c in inner(x))


def writes(ex, st, stmts):
    if ex.modstack is None:
        ex.modstack = []
    m = {}
    ex.modstack.append(m)
    saved = ex.mode
    ex.mode = 'dry'
    try:
        ex.seq(st.copy(), stmts)
    finally:
        ex.mode = saved
        ex.modstack.pop()
    return [k for k in m if k[0] != 'l']


def spmd_body(ex, st, n):
    cur = [st]
    if n['pre']:
        heap, log = st.heap, st.log
        st.heap, st.log = dict(st.ghost['spmd_heap']), None
        cur = []
        for s, fl, v in ex.seq(st, n['pre']):
            if fl != E.Flow.NORMAL:
                raise E.Unsupported('control flow leaves a parallel region')
            s.heap, s.log = dict(heap), log
            cur.append(s)
    out = []
    for s in cur:
        out += ex.seq(s, inner(n))
    return out


def nthreads(ex, st):
    if getattr(ex, 'nthreads', None) is None:
        ex.nthreads = E.fresh('nthreads', z3.IntSort())
    st.assume(ex.nthreads >= 1)
    return ex.nthreads


def workshare(ex, st, n, b, tx):
    pol = ex.par_policy
    if b.get('kind') != 'ForStmt':
        return ex.stmt(st, b)
    if pol is None or ex.mode != 'final':
        return ex.stmt(st, b)
    if pol == 'sync' and re.search(r'\bnowait\b', tx) and id(n) not in _last:
        ex.oblige(st, False, 'data-race: no barrier between a work-shared loop and what follows it', n)
    c = b.get('inner', [])
    init, cond, inc, body = c[0], c[2], c[3], c[4]
    out = []
    for s, fl, v in (ex.stmt(st, init) if init and init.get('kind') else [(st, E.Flow.NORMAL, None)]):
        if pol in ('sync', 'async'):
            independence(ex, s.copy(), cond, inc, body, b, pol)
        out += ex.loop(s, cond, inc, body, b)
    return out


def independence(ex, st, cond, inc, body, node, pol):
    un = None
    saved = ex.mode, ex.cand_hook, ex.exit_hook
    mods = ex.modified(st, cond, inc, body)
    ctx = E.LoopCtx(ex, st, cond, inc, body, node, mods)
    if ctx.iv is None:
        raise E.Unsupported('parallel loop without induction variable at ' + where(node))
    runs = []
    for r in range(2):
        s = st.copy()
        ex.havoc(s, mods)
        iv = ctx.ivval(s)
        if ctx.ivstep is not None:
            s.assume(iv >= ctx.iv0 if ctx.ivstep > 0 else iv <= ctx.iv0)
        s.log = LogList()
        ex.mode = 'houdini'
        ex.cand_hook, ex.exit_hook = None, None
        ex.rangeonly = True
        ex.loopstack.append(ctx)
        try:
            ex.iteration(s, cond, inc, body)
        finally:
            ex.mode, ex.cand_hook, ex.exit_hook = saved
            ex.rangeonly = False
            ex.loopstack.pop()
        runs.append((iv, s.log))
    (i1, l1), (i2, l2) = runs
    extra = ex.pair_hook(ctx, st, i1, i2) if ex.pair_hook else []
    pairs = {}
    for a in l1:
        for b in l2:
            if a[1] != b[1] or (a[0] == 'r' and b[0] == 'r') or (a[0] == 'a' and b[0] == 'a'):
                continue
            if a[1] not in st.heap:
                continue    # local to one iteration
            if pol == 'async' and (a[0] == 'r' or b[0] == 'r'):
                continue
            if a[0] == 'r':
                continue    # symmetric case covered by (write of run 1, read of run 2)
            key = (a[1], a[2].get_id(), b[2].get_id(), str(a[3]), str(b[3]), b[0])
            pairs.setdefault(key, (a, b))
    for a, b in pairs.values():
        idx = a[2] != b[2]
        if a[3] is not None and b[3] is not None:
            idx = z3.Or(idx, a[3] != b[3])
        pc = list(a[4]) + list(b[4]) + [i1 != i2] + extra
        tmp = st.copy()
        tmp.pc = pc
        ex.oblige(tmp, idx, 'iterations-independent(%s %s/%s)' % (a[1], a[0], b[0]), node)


class LogList(list):
    """access log shared by all copies of a state"""

    def __copy__(self):
        return self
