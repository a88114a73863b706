"""Contract framework: building symbolic inputs from preconditions, running one function, collecting its obligations."""
import z3, time, traceback, os, sys, re
import engine as E
import terms
from terms import Num, num, fresh, I, R
import astdb
from astdb import ty

AI = z3.ArraySort(I, I)
AR = z3.ArraySort(I, R)
_qn = [0]


def qvar(name='q'):
    _qn[0] += 1
    return z3.Int('%s?%d' % (name, _qn[0]))


def sel(a, i):
    return z3.Select(a, i)


def forall(f, n=1, pats=None):
    """ForAll over n fresh integer variables; f returns body or (body, patterns)"""
    vs = [qvar() for _ in range(n)]
    b = f(*vs)
    p = []
    if isinstance(b, tuple):
        b, p = b
    if p:
        return E.qall(vs, b, p)
    return z3.ForAll(vs, b)


def implies(a, b):
    return z3.Implies(a, b)


def rng(lo, k, hi):
    return z3.And(lo <= k, k < hi)


class B:
    """builder of the symbolic initial state"""

    def __init__(self, ex):
        self.ex = ex
        self.st = E.State()
        self.st.depth = 0
        self.named = {}

    def assume(self, *fs):
        for f in fs:
            self.st.assume(f)

    def iarr(self, name, length, const=False):
        rid = self.ex.new_region(self.st, name, I, 1, length, 's', const=const)
        self.named[name] = rid
        return E.Ptr(rid, z3.IntVal(0), 1, 'int')

    def farr(self, name, length, unit=1, stor=0, const=False):
        rid = self.ex.new_region(self.st, name, R, unit, length, 's' if unit == 1 else 'm', stor=stor, const=const)
        self.named[name] = rid
        return E.Ptr(rid, z3.IntVal(0), 1, 'double')

    def null(self, et='int'):
        return E.Ptr(None, z3.IntVal(0), 1, et)

    def heap(self, p, st=None):
        return (st or self.st).heap[p.reg]

    def obj(self, cls, **f):
        return self.ex.new_obj(self.st, cls, f)

    def arrayview(self, ptr, length, et='int', owner=None):
        return self.obj('blasted::ArrayView<%s>' % et, data=ptr, len=length,
                        owner=z3.BoolVal(False) if owner is None else owner)

    def int(self, name):
        return fresh(name, I)

    def bool(self, name):
        return fresh(name, z3.BoolSort())

    def scalar(self, name):
        return Num.atom(fresh(name, R), 's')


class SRM:
    """symbolic sparse-row matrix"""
    pass


def srmatrix(b, prefix='A', bs=1, stor=0, kind='storage', const=True, wf=True, sorted_=False, diag=False, n=None,
             minnnz=0, compact=True, colbound=None, valconst=None, flat=False, tri=False):
    """a well-formed (block-)CSR matrix: row pointers from 0, monotone; columns in range"""
    m = SRM()
    m.bs, m.stor = bs, stor
    m.n = n if n is not None else b.int(prefix + '_n')
    m.nnz = b.int(prefix + '_nnz')
    b.assume(m.n >= 0, m.nnz >= minnnz)
    m.pbrow = b.iarr(prefix + '_browptr', m.n + 1, const)
    m.pcol = b.iarr(prefix + '_bcolind', m.nnz, const)
    vc = const if valconst is None else valconst
    # flat: the value array is viewed scalar by scalar instead of block by block
    m.pval = b.farr(prefix + '_vals', m.nnz * (bs * bs), const=vc) if flat else b.farr(prefix + '_vals', m.nnz, bs * bs, stor, vc)
    m.pdiag = b.iarr(prefix + '_diagind', m.n, const)
    if compact:
        # end pointers alias row pointers shifted by one, as every compact constructor of the library sets them
        m.pend = E.Ptr(m.pbrow.reg, z3.IntVal(1), 1, 'int')
    else:
        m.pend = b.iarr(prefix + '_browendptr', m.n, const)
    m.rp, m.ci, m.va, m.di = b.heap(m.pbrow), b.heap(m.pcol), b.heap(m.pval), b.heap(m.pdiag)
    m.en = (lambda i: sel(m.rp, i + 1)) if compact else (lambda i: sel(b.st.heap[m.pend.reg] if False else m._en, i))
    if not compact:
        m._en = b.heap(m.pend)
    rp, ci, di, n = m.rp, m.ci, m.di, m.n
    if wf:
        if compact:
            b.assume(sel(rp, 0) == 0, sel(rp, n) == m.nnz)
            b.assume(forall(lambda i, j: (implies(z3.And(0 <= i, i <= j, j <= n), sel(rp, i) <= sel(rp, j)),
                                          [z3.MultiPattern(sel(rp, i), sel(rp, j))]), 2))
            b.assume(forall(lambda i: (implies(z3.And(0 <= i, i <= n), z3.And(0 <= sel(rp, i), sel(rp, i) <= m.nnz)), [sel(rp, i)])))
        else:
            b.assume(forall(lambda i: (implies(rng(0, i, n), z3.And(0 <= sel(rp, i), sel(rp, i) <= m.en(i), m.en(i) <= m.nnz)),
                                       [sel(rp, i)])))
            b.assume(forall(lambda i: (implies(rng(0, i, n), z3.And(0 <= sel(rp, i), sel(rp, i) <= m.en(i), m.en(i) <= m.nnz)),
                                       [m.en(i)])))
        cb = n if colbound is None else colbound
        b.assume(forall(lambda j: (implies(rng(0, j, m.nnz), rng(0, sel(ci, j), cb)), [sel(ci, j)])))
    if diag:
        b.assume(forall(lambda i: (implies(rng(0, i, n), z3.And(sel(rp, i) <= sel(di, i), sel(di, i) < m.en(i),
                                                                 sel(ci, sel(di, i)) == i)), [sel(di, i)])))
    if tri:
        # before the diagonal entry only smaller columns, after it only larger ones (weaker than sorted rows)
        b.assume(forall(lambda i, j: (implies(z3.And(0 <= i, i < n, sel(rp, i) <= j, j < sel(di, i)), sel(ci, j) < i),
                                      [z3.MultiPattern(sel(di, i), sel(ci, j))]), 2))
        b.assume(forall(lambda i, j: (implies(z3.And(0 <= i, i < n, sel(di, i) < j, j < m.en(i)), sel(ci, j) > i),
                                      [z3.MultiPattern(sel(di, i), sel(ci, j))]), 2))
    if sorted_:
        # strictly increasing columns inside each row
        b.assume(forall(lambda i, j, k: (implies(z3.And(0 <= i, i < n, sel(rp, i) <= j, j < k, k < m.en(i)),
                                                 sel(ci, j) < sel(ci, k)),
                                         [z3.MultiPattern(sel(rp, i), sel(ci, j), sel(ci, k))]), 3))
    m.nbst = m.nnz
    if kind == 'storage':
        cq = 'const ' if const else ''
        m.obj = b.obj('blasted::SRMatrixStorage<%sdouble, %sint>' % (cq, cq),
                      browptr=b.arrayview(m.pbrow, n + 1, cq + 'int'),
                      bcolind=b.arrayview(m.pcol, m.nnz, cq + 'int'),
                      vals=b.arrayview(m.pval, m.nnz * (bs * bs), cq + 'double'),
                      diagind=b.arrayview(m.pdiag, n, cq + 'int'),
                      browendptr=b.arrayview(m.pend, n, cq + 'int'),
                      nbrows=n, nnzb=m.nnz, nbstored=m.nnz)
    else:
        m.obj = b.obj('blasted::%s<double, int>' % ('CRawBSRMatrix' if const else 'RawBSRMatrix'),
                      browptr=m.pbrow, bcolind=m.pcol, vals=m.pval, diagind=m.pdiag, browendptr=m.pend,
                      nbrows=n, nnzb=m.nnz, nbstored=m.nnz)
    return m


def diag_position(m):
    """with sorted columns and a diagonal entry: entries before/after the diagonal entry are below/above the diagonal"""
    return []


# --------------------------------------------------------------------------------------------------- candidates
def real_cells(ctx):
    """accumulators of the loop: Real-valued locals and loop-invariantly indexed array cells.
    yields (name, get(state) -> Num)"""
    out = []
    for key, idxs in ctx.mods.items():
        if key[0] == 'l':
            v = ctx.entry.env.get(key[1])
            if isinstance(v, Num):
                k = v.k
                out.append(('loc%s' % key[1][1][-4:], lambda s, kk=key[1]: s.env[kk]))
            elif v is None and (E.is_float(ctx.ex.localtypes.get(key[1], '')) or E.eig(ctx.ex.localtypes.get(key[1], ''))):
                pass
        elif key[0] == 'h':
            r = ctx.entry.regs[key[1]]
            if r.sort != R or r.fields:
                continue
            inv = ctx.invariant_indices(idxs)
            if not inv:
                continue
            for x in inv:
                out.append(('%s[%s]' % (key[1], x), lambda s, rid=key[1], x=x, k=r.kind: num(z3.simplify(sel(s.heap[rid], x)), k)))
    return out


def accum(ctx, sums, coefs=(1, -1)):
    """candidates cell == cell_at_entry + c * Sum over the part of the range already visited"""
    out = []
    if ctx.iv is None:
        return out
    for nm, get in real_cells(ctx):
        try:
            c0 = get(ctx.entry)
        except (KeyError, z3.Z3Exception):
            continue
        for si, (sname, sf) in enumerate(sums):
            for ci, c in enumerate(coefs):
                cn = c if isinstance(c, Num) else Num.const(c)

                def up(s, get=get, c0=c0, sf=sf, cn=cn):
                    if ctx.ivstep is None or ctx.ivstep < 0:
                        return None
                    d = sf(s, ctx.iv0, ctx.ivval(s))
                    if d is None or (d.k != c0.k and c0.p):
                        return None
                    return get(s).z() == (c0 + cn * d).z()

                def dn(s, get=get, c0=c0, sf=sf, cn=cn):
                    if ctx.ivstep is None or ctx.ivstep > 0:
                        return None
                    d = sf(s, z3.simplify(ctx.ivval(s) + 1), z3.simplify(ctx.iv0 + 1))
                    if d is None or (d.k != c0.k and c0.p):
                        return None
                    return get(s).z() == (c0 + cn * d).z()
                out.append(('acc(%s,%s,%s)' % (nm, sname, ci), up))
                out.append(('accdn(%s,%s,%s)' % (nm, sname, ci), dn))
    return out


def int_cells(ctx):
    """integer locals changed by the loop (other than the induction variable)"""
    out = []
    for key in ctx.mods:
        if key[0] == 'l' and key[1] != ctx.iv:
            v = ctx.entry.env.get(key[1])
            if z3.is_expr(v) and v.sort() == I:
                out.append(('int%s' % str(key[1][1])[-4:], lambda s, kk=key[1]: s.env[kk]))
    return out


def iaccum(ctx, sums):
    """integer local == value at entry + Sum over the part of the range already visited"""
    out = []
    if ctx.iv is None:
        return out
    for nm, get in int_cells(ctx):
        c0 = get(ctx.entry)
        for sname, sf in sums:
            def up(s, get=get, c0=c0, sf=sf):
                if ctx.ivstep is None or ctx.ivstep < 0:
                    return None
                return get(s) == c0 + sf(s, ctx.iv0, ctx.ivval(s))

            def dn(s, get=get, c0=c0, sf=sf):
                if ctx.ivstep is None or ctx.ivstep > 0:
                    return None
                return get(s) == c0 + sf(s, z3.simplify(ctx.ivval(s) + 1), z3.simplify(ctx.iv0 + 1))
            out.append(('iacc(%s,%s)' % (nm, sname), up))
            out.append(('iaccdn(%s,%s)' % (nm, sname), dn))
    return out


def new_regions(ctx, sort=I, unit=None):
    """array regions written by the loop"""
    out = []
    for key in ctx.mods:
        if key[0] == 'h' and key[1] in ctx.entry.regs:
            r = ctx.entry.regs[key[1]]
            if r.sort == sort and not r.fields and (unit is None or r.unit == unit):
                out.append(key[1])
    return out


def b_objptr(o):
    return E.ObjPtr(o)


def fld(s, o, name):
    return s.objs[o.id][name]


def av_ptr(s, o):
    """data pointer of an array view"""
    return s.objs[o.id]['data']


def cell(s, p, i):
    """i-th pointee of pointer p (unit 1, or unit granularity for blocks)"""
    off = p.off
    return sel(s.heap[p.reg], z3.simplify(off + i) if not isinstance(i, int) else off + i)


def rows_done(ctx, name, pred, pats=None):
    """pred(s, r) holds for every row already processed by this loop, ascending or descending"""
    out = []
    if ctx.iv is None:
        return out

    def up(s):
        if ctx.ivstep is None or ctx.ivstep < 0:
            return None
        q = qvar('row')
        body = pred(s, q)
        if body is None:
            return None
        p = pats(s, q) if pats else []
        f = z3.Implies(z3.And(ctx.iv0 <= q, q < ctx.ivval(s)), body)
        return E.qall([q], f, p)

    def dn(s):
        if ctx.ivstep is None or ctx.ivstep > 0:
            return None
        q = qvar('row')
        body = pred(s, q)
        if body is None:
            return None
        p = pats(s, q) if pats else []
        f = z3.Implies(z3.And(ctx.iv0 >= q, q > ctx.ivval(s)), body)
        return E.qall([q], f, p)
    out.append((name + '-up', up))
    out.append((name + '-down', dn))
    return out


def blockof(bs, comps):
    """block built from its component polynomials (scalar itself for bs == 1)"""
    return num(comps[0], 's') if bs == 1 else num(terms.mkblk(bs, 1, comps), 'm')


def comp(n, c, bs):
    return n if bs == 1 else terms.component(n, c)


def all_sweeps(lc, name, pred, pats=None, n=None):
    """pred(s, r) holds for every row once a sweep of this loop (or of an enclosing one) is complete"""
    out = []
    for d, L in enumerate([lc] + list(reversed(lc.outer))):
        if L.iv is None or L.ivstep is None:
            continue

        def f(s, L=L):
            q = qvar('row')
            body = pred(s, q)
            if body is None:
                return None
            started = L.ivval(s) > L.iv0 if L.ivstep > 0 else L.ivval(s) < L.iv0
            return z3.Implies(started, E.qall([q], z3.Implies(rng(0, q, n), body), pats(s, q) if pats else []))
        out.append(('%s-sweep%d' % (name, d), f))
    return out


def flat_done(lc, name, rid, bs, want, pats=None):
    """scalar loop over a block-viewed array: component (b,c) equals component c of want(s,b) once passed; untouched after that"""
    if lc.iv is None or lc.ivstep != 1 or bs == 1:
        return []
    e0 = lc.entry.heap[rid]

    def el(a, b, c):
        return terms.elem(sel(a, b), c)

    def f(s):
        b, c = qvar('b'), qvar('c')
        h = s.heap[rid]
        w = want(s, b, c)
        return E.qall([b, c], z3.Implies(z3.And(b >= 0, 0 <= c, c < bs, b * bs + c < lc.ivval(s)), el(h, b, c) == w), [el(h, b, c)])

    def g(s):
        b, c = qvar('b'), qvar('c')
        h = s.heap[rid]
        return E.qall([b, c], z3.Implies(z3.And(b >= 0, 0 <= c, c < bs, b * bs + c >= lc.ivval(s)), el(h, b, c) == el(e0, b, c)), [el(h, b, c)])
    return [(name + '-flat', f), (name + '-flatframe', g)]


def flat_exit(rid, bs, n, want):
    """blocks whose components agree are equal: (what must hold componentwise, what may then be assumed)"""
    def goal(s):
        b = qvar('b')
        return E.qall([b], z3.Implies(rng(0, b, n), z3.And([terms.elem(sel(s.heap[rid], b), z3.IntVal(c)) == terms.component(want(s, b), c).z() for c in range(bs)])), [])

    def fact(s):
        b = qvar('b')
        return E.qall([b], z3.Implies(rng(0, b, n), sel(s.heap[rid], b) == want(s, b).z()), [sel(s.heap[rid], b)])
    return goal, fact


# -------------------------------------------------------------------------------------------------------- tasks
class Contract:
    """contract of a callee, used at its call sites instead of its body; it is established by a task of its own"""

    def __init__(self, name, matches, apply):
        self.name, self.matches, self.apply = name, matches, apply


class Task:
    """contract of one function (one instantiation) and how to establish it"""
    name = '?'
    files = ()
    throws = False        # True: exceptions are part of the behaviour (checked in post)

    def __init__(self, name, files, select, setup, post, cands=None, exits=None, opts=None, bounded=None, budget=240, modular=()):
        self.name, self.files, self.select, self.setup, self.post = name, files, select, setup, post
        self.cands, self.exits, self.opts, self.budget = cands, exits, opts or {}, budget
        self.modular = modular


def run_task(task, verbose=False):
    t0 = time.time()
    res = dict(task=task.name, ok=False, obls=[], error=None, secs=0.0, solver_s=0.0, functions=[], inlined=[], loops=0, invs=0,
               queries=0, where='')
    ex = None
    try:
        db = astdb.DB()
        tu = None
        for f in task.files:
            t = db.load(f)
            tu = tu or t
        cands = []
        for t in db.tus.values():
            cands = db.find(t, task.select)
            if cands:
                tu = t
                break
        if not cands:
            res['error'] = 'function under contract not found'
            return res
        if len(cands) > 1:
            res['error'] = 'ambiguous function: ' + ', '.join(f.qual for f in cands)
            return res
        fn = cands[0]
        res['functions'] = [fn.qual]
        res['where'] = astdb.where(fn.node)
        ex = E.Exec(db, tu, contracts={c.name: c for c in task.modular}, opts=dict(task.opts))
        ex.deadline = time.time() + task.budget
        b = B(ex)
        b.fn = fn
        ctx = task.setup(b)
        this, args = ctx['this'], ctx['args']
        # precondition must be satisfiable: no quick refutation
        import solve
        if solve.prove(b.st.pc, z3.BoolVal(False), 3000).ok:
            res['error'] = 'vacuous: precondition is contradictory'
            return res
        if task.cands:
            ex.cand_hook = lambda lc: task.cands(lc, ctx)
        if task.exits:
            ex.exit_hook = lambda lc, s: task.exits(lc, s, ctx)
        if 'instances' in ctx:
            # instances of assumed definitions (schema instantiation only)
            ex.inst_hook = lambda lc, s: ctx['instances'](lc, s)
        if 'store_hooks' in ctx:
            ex.store_hooks = ctx['store_hooks']
        ctx['b'] = b
        entry = b.st.copy()
        ctx['entry'] = entry
        outs = ex.run_body(b.st.copy(), fn, this, args)
        npaths = 0
        for s, fl, val in outs:
            if fl == E.Flow.THROW and not task.opts.get('throws'):
                ex.oblige(s, False, 'no-exception', fn.node)
                continue
            if s.pc and z3.is_false(z3.simplify(z3.And(s.pc[-1:]))):
                continue
            npaths += 1
            task.post(ex, s, fl, val, ctx)
        if npaths == 0:
            res['error'] = 'vacuous: no path reaches the end of the function'
        # vacuity of the exit states
        res['paths'] = npaths
        if npaths and all(solve.prove(s.pc, z3.BoolVal(False), 1500).ok for s, fl, v in outs):
            res['error'] = 'vacuous: every exit path is contradictory'
    except E.Unsupported as e:
        res['error'] = 'outside the supported subset: %s' % e
    except TimeoutError as e:
        res['error'] = str(e)
    except astdb.ExtractError as e:
        res['error'] = str(e)
    except E.Thrown:
        res['error'] = 'uncaught exception escapes'
    except Exception as e:
        res['error'] = 'internal: %r %s' % (e, traceback.format_exc()[-1500:])
    finally:
        if ex is not None:
            res['obls'] = [(o.name, o.where, o.ok, o.how, round(o.secs, 3), o.detail, o.model) for o in ex.obls]
            res['solver_s'] = ex.stats['solver_s']
            res['inlined'] = sorted(ex.stats['inlined'])
            res['loops'], res['invs'], res['queries'] = ex.stats['loops'], ex.stats['invs'], ex.stats['queries']
            res['contracts'] = sorted(ex.stats['contracts'])
            res['par_loops'] = ex.stats['par_loops']
            res['invariants'] = {k: sorted(set(v)) for k, v in ex.inv_report.items()}
        res['secs'] = time.time() - t0
        res['ok'] = res['error'] is None and bool(res['obls']) and all(o[2] for o in res['obls'])
    return res


def show(r, verbose=False):
    print('%s %-50s %5.1fs obls=%d fail=%d loops=%d invs=%d q=%d %s' % (
        'OK  ' if r['ok'] else 'FAIL', r['task'], r['secs'], len(r['obls']), sum(not o[2] for o in r['obls']), r['loops'], r['invs'],
        r['queries'], r['error'] or ''))
    for o in r['obls']:
        if not o[2] or verbose:
            print('    %s %s @%s %s %.2fs' % ('ok' if o[2] else 'XX', o[0], o[1], o[3], o[4]))
            if not o[2]:
                print('        ', (o[5] or '')[:600].replace('\n', ' '))
    if verbose:
        for k, v in r.get('invariants', {}).items():
            print('    inv', k, v)
