"""Assembly interface of the block and scalar sparse-row matrices."""
import z3
from fw import *
import terms


def file_of(bs):
    return 'src/csrmatrix.cpp' if bs == 1 else 'src/bsrmatrix.cpp'


def cls(bs):
    return 'BSRMatrix<double,int,%d>' % bs


def rowof(b, m):
    """ghost: the row that owns position t (exists and is unique because the row pointers are monotone)"""
    a = z3.Const('A_rowof', AI)
    b.assume(forall(lambda t: (implies(rng(0, t, m.nnz), z3.And(rng(0, sel(a, t), m.n), sel(m.rp, sel(a, t)) <= t,
                                                               t < sel(m.rp, sel(a, t) + 1))), [sel(a, t)])))
    b.assume(forall(lambda r, t: (implies(z3.And(rng(0, r, m.n), sel(m.rp, r) <= t, t < sel(m.rp, r + 1)), sel(a, t) == r),
                                  [z3.MultiPattern(sel(m.rp, r), sel(a, t))]), 2))
    return a


def matrix(b, bs, **k):
    m = srmatrix(b, 'A', bs, 0, const=False, valconst=False, flat=True, **k)
    m.this = b.obj('blasted::BSRMatrix<double, int, %d>' % bs, mat=m.obj)
    m.rowof = rowof(b, m)
    return m


def outeriv(lc, s, k=1):
    o = [x for x in lc.outer if x.iv is not None]
    return o[-k].ivval(s) if len(o) >= k else None


def cellwise(bs, what, build, changed, newval, name=None):
    """a member that changes stored values: value(t) for every flat position t; changed(c,t) with progress"""
    def select(f):
        return f.qual == cls(bs) + '::' + what

    def setup(b):
        m = matrix(b, bs, diag=(what in ('setDiagZero', 'updateDiagBlock')))
        c = dict(m=m, this=m.this)
        c['args'] = build(b, m, c)
        return c

    def full(c, arr, extra):
        m = c['m']

        def f(t):
            cond = changed(c, t)
            if extra is not None:
                cond = z3.And(cond, extra(t))
            return implies(rng(0, t, m.nnz * (bs * bs)), sel(arr, t) == z3.If(cond, newval(c, t), sel(m.va, t))), [sel(arr, t)]
        return forall(f)

    def cands(lc, c):
        m = c['m']
        V = m.pval.reg
        out = []
        if lc.iv is None or lc.ivstep is None:
            return out
        blk = (lambda t: t / (bs * bs)) if bs > 1 else (lambda t: t)

        def part(nm, pr):
            def g(s):
                e = pr(s)
                return None if e is None else full(c, s.heap[V], e)
            out.append((nm, g))
        iv = lc.ivval
        nout = len([x for x in lc.outer if x.iv is not None])
        # progress measured in flat positions, blocks, rows, and rows with an inner position
        part('flat', lambda s: lambda t: t < iv(s))
        part('block', lambda s: lambda t: blk(t) < iv(s))
        part('row', lambda s: lambda t: sel(m.rowof, blk(t)) < iv(s))
        if 'pos' in c:
            part('local', lambda s: lambda t: t < c['pos'] * (bs * bs) + iv(s))
        if nout:
            part('block+local', lambda s: lambda t: z3.Or(blk(t) < outeriv(lc, s), t < outeriv(lc, s) * (bs * bs) + iv(s)))
            part('row+pos', lambda s: lambda t: z3.Or(sel(m.rowof, blk(t)) < outeriv(lc, s), z3.And(sel(m.rowof, blk(t)) == outeriv(lc, s), t < iv(s))))
            if 'P' in c:
                part('row+off', lambda s: lambda t: z3.Or(sel(m.rowof, t) < outeriv(lc, s), z3.And(sel(m.rowof, t) == outeriv(lc, s), t < sel(c['P'], outeriv(lc, s)) + iv(s))))
        if 'P' in c and nout:
            P = c['P']
            for nm, get in int_cells(lc):
                out.append(('k(%s)' % nm, lambda s, get=get: get(s) == z3.If(iv(s) <= sel(P, outeriv(lc, s)), 0, iv(s) - sel(P, outeriv(lc, s)))))
            out.append(('pos-hi', lambda s: iv(s) <= sel(P, outeriv(lc, s)) + c['bsj']))
        return out

    def post(ex, s, fl, val, c):
        m = c['m']
        ex.oblige(s, full(c, s.heap[m.pval.reg], None), 'post: exactly the addressed entries have changed, by exactly the stated amount')
        o = s.objs[m.obj.id]
        ex.oblige(s, z3.And(o['nbrows'] == m.n, o['nnzb'] == m.nnz, o['nbstored'] == m.nnz), 'post: sizes unchanged')
        for f, p in (('browptr', m.pbrow), ('bcolind', m.pcol), ('diagind', m.pdiag)):
            ex.oblige(s, z3.And(s.heap[p.reg] == c['entry'].heap[p.reg], z3.BoolVal(av_ptr(s, o[f]).reg == p.reg)), 'post: %s unchanged' % f)
    return Task('%s::%s%s' % (cls(bs), what, name or ''), [file_of(bs)], select, setup, post, cands,
                opts=dict(par='sync', unroll=12, **(dict(atomicwrites=('A_vals',)) if what in ('updateBlock', 'updateDiagBlock') else {})))


# ---- block matrices
def blockargs(bs):
    def f(b, m, c):
        si, sj = b.int('starti'), b.int('startj')
        c['ri'], c['cj'] = b.int('ri'), b.int('cj')
        b.assume(rng(0, c['ri'], m.n), rng(0, c['cj'], m.n), si == c['ri'] * bs, sj == c['cj'] * bs)
        c['buf'] = b.farr('buffer', bs * bs, const=True)
        c['bufh'] = b.heap(c['buf'])
        return [si, sj, c['buf'], b.int('param1'), b.int('param2')]
    return f


def blockhit(bs):
    return lambda c, t: z3.And(sel(c['m'].rowof, t / (bs * bs)) == c['ri'], sel(c['m'].ci, t / (bs * bs)) == c['cj'])


def diagargs(bs):
    def f(b, m, c):
        si = b.int('starti')
        c['ri'] = b.int('ri')
        b.assume(rng(0, c['ri'], m.n), si == c['ri'] * bs)
        c['pos'] = sel(m.di, c['ri'])
        c['buf'] = b.farr('buffer', bs * bs, const=True)
        c['bufh'] = b.heap(c['buf'])
        return [si, c['buf'], b.int('param')]
    return f


def isdiag(bs):
    return lambda c, t: sel(c['m'].di, sel(c['m'].rowof, t / (bs * bs))) == t / (bs * bs)


def noargs(b, m, c):
    return []


def factor(b, m, c):
    c['f'] = b.scalar('factor')
    return [c['f']]


TASKS = []
for bs in (3, 7):
    B2 = bs * bs
    TASKS.append(cellwise(bs, 'submitBlock', blockargs(bs), blockhit(bs), lambda c, t, B2=B2: sel(c['bufh'], t % B2)))
    TASKS.append(cellwise(bs, 'updateBlock', blockargs(bs), blockhit(bs), lambda c, t, B2=B2: sel(c['m'].va, t) + sel(c['bufh'], t % B2)))
    TASKS.append(cellwise(bs, 'updateDiagBlock', diagargs(bs), lambda c, t, B2=B2: t / B2 == c['pos'],
                          lambda c, t, B2=B2: sel(c['m'].va, t) + sel(c['bufh'], t % B2)))
    TASKS.append(cellwise(bs, 'setAllZero', noargs, lambda c, t: z3.BoolVal(True), lambda c, t: z3.RealVal(0)))
    TASKS.append(cellwise(bs, 'setDiagZero', noargs, isdiag(bs), lambda c, t: z3.RealVal(0)))
    TASKS.append(cellwise(bs, 'scaleAll', factor, lambda c, t: z3.BoolVal(True), lambda c, t: (num(sel(c['m'].va, t), 's') * c['f']).z()))


# ---- scalar matrices: dense sub-blocks scattered over sorted rows
def csrargs(b, m, c, diag=False):
    si = b.int('starti')
    bsi = b.int('bsi')
    bsj = bsi if diag else b.int('bsj')
    sj = si if diag else b.int('startj')
    b.assume(bsi >= 1, bsj >= 1, si >= 0, si + bsi <= m.n, sj >= 0)
    P = z3.Const('A_P', AI)       # where the sub-block starts in each row: its columns are stored contiguously (documented precondition)
    b.assume(forall(lambda r: (implies(rng(si, r, si + bsi), z3.And(sel(m.rp, r) <= sel(P, r), sel(P, r) + bsj <= sel(m.rp, r + 1))),
                               [sel(P, r)])))
    b.assume(forall(lambda r: (implies(rng(si, r, si + bsi), z3.And(sel(m.rp, r) <= sel(P, r), sel(P, r) + bsj <= sel(m.rp, r + 1))),
                               [sel(m.rp, r)])))
    b.assume(forall(lambda r, t: (implies(z3.And(rng(si, r, si + bsi), sel(m.rp, r) <= t, t < sel(m.rp, r + 1)),
                                          z3.And((sel(m.ci, t) < sj) == (t < sel(P, r)),
                                                 implies(z3.And(sel(P, r) <= t, t < sel(P, r) + bsj), sel(m.ci, t) == sj + t - sel(P, r)))),
                                  [z3.MultiPattern(sel(P, r), sel(m.ci, t))]), 2))
    if diag:
        b.assume(forall(lambda r: (implies(rng(si, r, si + bsi), sel(m.di, r) == sel(P, r) + r - si), [sel(m.di, r)])))
    ln = b.int('buflen')
    b.assume(ln == bsi * bsj)
    # row-major position l*bsj+k of a bsi x bsj array lies inside it
    b.assume(forall(lambda l, k: (implies(z3.And(rng(0, l, bsi), rng(0, k, bsj)), rng(0, l * bsj + k, ln)), [l * bsj + k]), 2))
    c.update(P=P, si=si, bsi=bsi, bsj=bsj)
    c['buf'] = b.farr('buffer', ln, const=True)
    c['bufh'] = b.heap(c['buf'])
    return [si, c['buf'], bsi] if diag else [si, sj, c['buf'], bsi, bsj]


def csrhit(c, t):
    r = sel(c['m'].rowof, t)
    return z3.And(rng(c['si'], r, c['si'] + c['bsi']), sel(c['P'], r) <= t, t < sel(c['P'], r) + c['bsj'])


def csrbuf(c, t):
    r = sel(c['m'].rowof, t)
    return sel(c['bufh'], (r - c['si']) * c['bsj'] + (t - sel(c['P'], r)))


TASKS += [cellwise(1, 'submitBlock', csrargs, csrhit, csrbuf),
          cellwise(1, 'updateBlock', csrargs, csrhit, lambda c, t: sel(c['m'].va, t) + csrbuf(c, t)),
          cellwise(1, 'updateDiagBlock', lambda b, m, c: csrargs(b, m, c, True), csrhit, lambda c, t: sel(c['m'].va, t) + csrbuf(c, t)),
          cellwise(1, 'setAllZero', noargs, lambda c, t: z3.BoolVal(True), lambda c, t: z3.RealVal(0)),
          cellwise(1, 'setDiagZero', noargs, lambda c, t: sel(c['m'].di, sel(c['m'].rowof, t)) == t, lambda c, t: z3.RealVal(0)),
          cellwise(1, 'scaleAll', factor, lambda c, t: z3.BoolVal(True), lambda c, t: (num(sel(c['m'].va, t), 's') * c['f']).z())]


# ---- structure, copies
def diagok(rp, ci, d, r):
    """d is the position of the diagonal entry of row r, or -1 when the row has none"""
    return z3.Or(z3.And(sel(rp, r) <= d, d < sel(rp, r + 1), sel(ci, d) == r),
                 z3.And(d == -1, forall(lambda t: (implies(z3.And(sel(rp, r) <= t, t < sel(rp, r + 1)), sel(ci, t) != r), [sel(ci, t)]))))


def same_arrays(lc, srcs):
    out = []
    for r in new_regions(lc):
        for nm, src in srcs:
            out += rows_done(lc, 'copy-%s(%s)' % (nm, r), lambda s, k, r=r, src=src: sel(s.heap[r], k) == sel(src, k),
                             lambda s, k, r=r: [sel(s.heap[r], k)])
    return out


def sizes(ex, s, o, n, nnz, bs, what='the matrix'):
    ex.oblige(s, z3.And(o['nbrows'] == n, o['nnzb'] == nnz, o['nbstored'] == nnz), 'post: sizes of ' + what)
    for f, ln in (('browptr', n + 1), ('bcolind', nnz), ('vals', nnz * (bs * bs)), ('diagind', n)):
        a = s.objs[o[f].id]
        ex.oblige(s, a['len'] == ln, 'post: length of ' + f)
    e, p = s.objs[o['browendptr'].id], s.objs[o['browptr'].id]
    ex.oblige(s, z3.Or(n == 0, z3.And(e['len'] == n, z3.BoolVal(getattr(e['data'], 'reg', None) == p['data'].reg),
                                      getattr(e['data'], 'off', z3.IntVal(-1)) == 1)), 'post: row ends are the row pointers shifted by one')


def fresh_array(ex, s, o, f, c):
    d = s.objs[o[f].id]
    ex.oblige(s, z3.BoolVal(d['data'].reg is not None and d['data'].reg not in c['entry'].regs and s.alive.get(d['data'].reg) is True),
              'post: %s is a fresh live buffer' % f)
    ex.oblige(s, d['owner'], 'post: %s is owned' % f)


def structure(bs, ctor):
    what = 'BSRMatrix' if ctor else 'setStructure'

    def select(f):
        return f.qual == cls(bs) + '::' + what and len(f.params) == 3

    def setup(b):
        n, nnz = b.int('n'), b.int('nnz')
        m = srmatrix(b, 'A', 1, 0, const=True)
        c = dict(m=m)
        if ctor:
            c['this'] = b.obj('blasted::BSRMatrix<double, int, %d>' % bs)
        else:
            old = srmatrix(b, 'old', bs, 0, const=False, flat=True, wf=False)
            for f, p in (('browptr', old.pbrow), ('bcolind', old.pcol), ('vals', old.pval), ('diagind', old.pdiag)):
                b.st.objs[b.st.objs[old.obj.id][f].id]['owner'] = z3.BoolVal(True)
                b.st.alive[p.reg] = True
            c['old'] = old
            c['this'] = b.obj('blasted::BSRMatrix<double, int, %d>' % bs, mat=old.obj)
        c['args'] = [m.n, m.pcol, m.pbrow]
        return c

    def cands(lc, c):
        m = c['m']
        out = same_arrays(lc, [('rp', m.rp), ('ci', m.ci)])
        if lc.iv is None:
            return out
        for r in new_regions(lc):
            out += rows_done(lc, 'diag(%s)' % r, lambda s, k, r=r: diagok(m.rp, m.ci, sel(s.heap[r], k), k), lambda s, k, r=r: [sel(s.heap[r], k)])

            def nodiag(s, r=r):
                row = outeriv(lc, s)
                if row is None:
                    return None
                return z3.And(sel(s.heap[r], row) == -1,
                              forall(lambda t: (implies(z3.And(lc.iv0 <= t, t < lc.ivval(s)), sel(m.ci, t) != row), [sel(m.ci, t)])))
            out.append(('nodiag(%s)' % r, nodiag))
        return out

    def post(ex, s, fl, val, c):
        m = c['m']
        this = s.objs[c['this'].id]
        o = s.objs[this['mat'].id]
        sizes(ex, s, o, m.n, m.nnz, bs)
        for f in ('browptr', 'bcolind', 'vals', 'diagind'):
            fresh_array(ex, s, o, f, c)
        P = lambda f: av_ptr(s, o[f])
        ex.oblige(s, forall(lambda i: implies(z3.And(0 <= i, i <= m.n), cell(s, P('browptr'), i) == sel(m.rp, i))), 'post: row pointers copied')
        ex.oblige(s, forall(lambda i: implies(rng(0, i, m.nnz), cell(s, P('bcolind'), i) == sel(m.ci, i))), 'post: column indices copied')
        ex.oblige(s, forall(lambda i: implies(rng(0, i, m.n), diagok(m.rp, m.ci, cell(s, P('diagind'), i), i))), 'post: diagonal positions recorded')
        if not ctor:
            for p in (c['old'].pbrow, c['old'].pcol, c['old'].pval, c['old'].pdiag):
                ex.oblige(s, z3.BoolVal(s.alive.get(p.reg) is False), 'post: the previous buffers are released')
    return Task('%s::%s(structure)' % (cls(bs), what), [file_of(bs), 'src/rawsrmatrixutils.cpp'], select, setup, post, cands)


def copyctor(bs):
    def select(f):
        return f.qual == cls(bs) + '::BSRMatrix' and len(f.params) == 1 and ty(f.params[0]).startswith('const blasted::BSRMatrix<') or \
            f.qual == cls(bs) + '::BSRMatrix' and len(f.params) == 1 and ty(f.params[0]).startswith('const BSRMatrix<')

    def setup(b):
        m = srmatrix(b, 'A', bs, 0, const=False, flat=True)
        return dict(m=m, this=b.obj('blasted::BSRMatrix<double, int, %d>' % bs), args=[b.obj('blasted::BSRMatrix<double, int, %d>' % bs, mat=m.obj)])

    def cands(lc, c):
        m = c['m']
        out = same_arrays(lc, [('rp', m.rp), ('ci', m.ci), ('di', m.di)])
        if lc.iv is None:
            return out
        for r in new_regions(lc, R):
            def upto(s, hi, r=r):
                return forall(lambda t: (implies(rng(0, t, hi), sel(s.heap[r], t) == sel(m.va, t)), [sel(s.heap[r], t)]))
            out.append(('copy-vals(%s)' % r, lambda s, r=r, f=upto: f(s, lc.ivval(s) * (bs * bs))))
            out.append(('copy-valsin(%s)' % r, lambda s, r=r, f=upto: None if outeriv(lc, s) is None else f(s, outeriv(lc, s) * (bs * bs) + lc.ivval(s))))
        return out

    def post(ex, s, fl, val, c):
        m = c['m']
        o = s.objs[s.objs[c['this'].id]['mat'].id]
        sizes(ex, s, o, m.n, m.nnz, bs)
        for f, src, ln in (('browptr', m.rp, m.n + 1), ('bcolind', m.ci, m.nnz), ('vals', m.va, m.nnz * (bs * bs)), ('diagind', m.di, m.n)):
            fresh_array(ex, s, o, f, c)
            p = av_ptr(s, o[f])
            ex.oblige(s, forall(lambda i: implies(rng(0, i, ln), cell(s, p, i) == sel(src, i))), 'post: equal contents of ' + f)
    return Task('%s::BSRMatrix(copy)' % cls(bs), [file_of(bs), 'src/rawsrmatrixutils.cpp'], select, setup, post, cands, opts={'unroll': 12})


def wrapctor(bs):
    def select(f):
        return f.qual == cls(bs) + '::BSRMatrix' and len(f.params) == 5

    def setup(b):
        m = srmatrix(b, 'A', bs, 0, const=False, flat=True)
        return dict(m=m, this=b.obj('blasted::BSRMatrix<double, int, %d>' % bs), args=[m.n, m.pbrow, m.pcol, m.pval, m.pdiag])

    def post(ex, s, fl, val, c):
        m = c['m']
        o = s.objs[s.objs[c['this'].id]['mat'].id]
        sizes(ex, s, o, m.n, m.nnz, bs)
        for f, p in (('browptr', m.pbrow), ('bcolind', m.pcol), ('vals', m.pval), ('diagind', m.pdiag)):
            a = s.objs[o[f].id]
            ex.oblige(s, z3.And(z3.BoolVal(a['data'].reg == p.reg), a['data'].off == 0, z3.Not(a['owner'])), 'post: wraps the given ' + f)
    return Task('%s::BSRMatrix(wrap)' % cls(bs), [file_of(bs), 'src/rawsrmatrixutils.cpp'], select, setup, post)


def takector(bs):
    def select(f):
        return f.qual == cls(bs) + '::BSRMatrix' and len(f.params) == 1 and 'RawBSRMatrix<' in ty(f.params[0])

    def setup(b):
        m = srmatrix(b, 'A', bs, 0, const=False, flat=True, kind='raw')
        for p in (m.pbrow, m.pcol, m.pval, m.pdiag):
            b.st.alive[p.reg] = True
        return dict(m=m, this=b.obj('blasted::BSRMatrix<double, int, %d>' % bs), args=[m.obj])

    def post(ex, s, fl, val, c):
        m = c['m']
        o = s.objs[s.objs[c['this'].id]['mat'].id]
        sizes(ex, s, o, m.n, m.nnz, bs)
        raw = s.objs[m.obj.id]
        for f, p in (('browptr', m.pbrow), ('bcolind', m.pcol), ('vals', m.pval), ('diagind', m.pdiag)):
            a = s.objs[o[f].id]
            ex.oblige(s, z3.And(z3.BoolVal(a['data'].reg == p.reg), a['data'].off == 0, a['owner']), 'post: owns the given ' + f)
            ex.oblige(s, z3.BoolVal(s.alive.get(p.reg) is True), 'post: nothing released')
            ex.oblige(s, z3.BoolVal(getattr(raw[f], 'reg', None) is None), 'post: the raw matrix is nulled (%s)' % f)
        ex.oblige(s, z3.And(raw['nbrows'] == 0, raw['nnzb'] == 0, raw['nbstored'] == 0), 'post: the raw matrix is empty')
    return Task('%s::BSRMatrix(take over)' % cls(bs), [file_of(bs), 'src/rawsrmatrixutils.cpp'], select, setup, post)


STRUCT = [structure(bs, ct) for bs in (1, 3, 7) for ct in (True, False)] + [copyctor(bs) for bs in (1, 3, 7)]
OWN = [wrapctor(bs) for bs in (1, 3, 7)] + [takector(bs) for bs in (1, 3, 7)]
TASKS += STRUCT + OWN


# ---- queries of the diagonal
def absv(z):
    return z3.If(z >= 0, z, -z)


EPS = (Num.const(100) * Num.atom(z3.Const('dbl_epsilon', R), 's')).z()
INF = z3.Const('dbl_infinity', R)


def dval(va, di, i):
    return sel(va, sel(di, i))


DPROD = terms.SumFn('diagprod', [AR, AI], lambda va, di, i: num(dval(va, di, i), 's'), 'p')
DASUM = terms.SumFn('diagabssum', [AR, AI], lambda va, di, i: Num.atom(absv(dval(va, di, i)), 's'), 's')
DZERO = terms.SumFn('diagzeros', [AR, AI], lambda va, di, i: z3.If(absv(dval(va, di, i)) < EPS, z3.IntVal(1), z3.IntVal(0)), 'i')


def query(what, want, loopinv=None):
    def setup(b):
        m = srmatrix(b, 'A', 1, 0, const=False, diag=True)
        # stored values are finite
        b.assume(forall(lambda j: (implies(rng(0, j, m.nnz), z3.And(sel(m.va, j) < INF, -sel(m.va, j) < INF)), [sel(m.va, j)])), INF > 0)
        return dict(m=m, this=b.obj('blasted::BSRMatrix<double, int, 1>', mat=m.obj), args=[])

    def cands(lc, c):
        m = c['m']
        if lc.iv is None:
            return []
        out = accum(lc, [('abs', lambda s, lo, hi: DASUM(m.va, m.di, lo, hi))])
        out += iaccum(lc, [('zeros', lambda s, lo, hi: DZERO.z(m.va, m.di, lo, hi))])
        for nm, get in real_cells(lc):
            def prod(s, get=get):
                return get(s).z() == DPROD(m.va, m.di, lc.iv0, lc.ivval(s)).z()

            def le(s, get=get):
                return forall(lambda r: (implies(z3.And(lc.iv0 <= r, r < lc.ivval(s)), get(s).z() <= absv(dval(m.va, m.di, r))), [sel(m.di, r)]))

            def ge(s, get=get):
                return forall(lambda r: (implies(z3.And(lc.iv0 <= r, r < lc.ivval(s)), get(s).z() >= absv(dval(m.va, m.di, r))), [sel(m.di, r)]))

            def att(s, get=get, base=None):
                r = qvar()
                return z3.Or(get(s).z() == get(lc.entry).z(),
                             z3.Exists([r], z3.And(lc.iv0 <= r, r < lc.ivval(s), get(s).z() == absv(dval(m.va, m.di, r))),
                                       patterns=[sel(m.di, r)]))
            out += [('prod(%s)' % nm, prod), ('le(%s)' % nm, le), ('ge(%s)' % nm, ge), ('att(%s)' % nm, att)]
        for nm, get in int_cells(lc):
            out.append(('same(%s)' % nm, lambda s, get=get: get(s) == get(lc.entry)))
        out.append(('allnz', lambda s: forall(lambda r: (implies(z3.And(lc.iv0 <= r, r < lc.ivval(s)), absv(dval(m.va, m.di, r)) >= EPS), [sel(m.di, r)]))))
        return out

    def post(ex, s, fl, val, c):
        m = c['m']
        for nm, g in want(m, val):
            ex.oblige(s, g, 'post: ' + nm)
        for p in (m.pbrow, m.pcol, m.pdiag, m.pval):
            ex.oblige(s, s.heap[p.reg] == c['entry'].heap[p.reg], 'post: the matrix is unchanged')
    return Task('BSRMatrix<double,int,1>::' + what, ['src/csrmatrix.cpp'], lambda f: f.qual == 'BSRMatrix<double,int,1>::' + what, setup, post, cands)


def attained(m, v, base):
    r = qvar()
    return z3.Or(v == base, z3.Exists([r], z3.And(rng(0, r, m.n), v == absv(dval(m.va, m.di, r))), patterns=[sel(m.di, r)]))


QUERIES = [
    query('getDiagonalProduct', lambda m, v: [('product of the diagonal entries', v.z() == DPROD(m.va, m.di, z3.IntVal(0), m.n).z())]),
    query('getDiagonalAbsSum', lambda m, v: [('sum of the absolute diagonal entries', v.z() == DASUM(m.va, m.di, z3.IntVal(0), m.n).z())]),
    query('getNumZeroDiagonals', lambda m, v: [('number of diagonal entries below the threshold', v == DZERO.z(m.va, m.di, z3.IntVal(0), m.n))]),
    query('getAbsMinDiagonalEntry', lambda m, v: [
        ('no diagonal entry is smaller', forall(lambda r: implies(rng(0, r, m.n), v.z() <= absv(dval(m.va, m.di, r))))),
        ('the minimum is attained unless the matrix is empty', z3.And(attained(m, v.z(), INF), implies(m.n > 0, v.z() < INF)))]),
    query('getAbsMaxDiagonalEntry', lambda m, v: [
        ('no diagonal entry is larger', forall(lambda r: implies(rng(0, r, m.n), v.z() >= absv(dval(m.va, m.di, r))))),
        ('the maximum is attained, or zero', attained(m, v.z(), z3.RealVal(0)))]),
    query('zeroDiagonalRow', lambda m, v: [
        ('-1 only when no diagonal entry is below the threshold', implies(v == -1, forall(lambda r: implies(rng(0, r, m.n), absv(dval(m.va, m.di, r)) >= EPS)))),
        ('otherwise a row whose diagonal entry is below the threshold', implies(v != -1, z3.And(rng(0, v, m.n), absv(dval(m.va, m.di, v)) < EPS))),
        ('and it is the first one', implies(v != -1, forall(lambda r: implies(rng(0, r, v), absv(dval(m.va, m.di, r)) >= EPS))))]),
]
TASKS += QUERIES


def isequal(bs):
    def setup(b):
        A = srmatrix(b, 'A', bs, 0, const=False, flat=True, minnnz=1)
        D = srmatrix(b, 'D', bs, 0, const=False, flat=True, minnnz=1)
        b.assume(A.n >= 1, D.n >= 1)
        tol = b.scalar('tol')
        K = 'blasted::BSRMatrix<double, int, %d>' % bs
        return dict(A=A, D=D, tol=tol.z(), this=b.obj(K, mat=A.obj), args=[b.obj(K, mat=D.obj), tol])

    def flag(s, r, k):
        return sel(s.heap[r], k)

    def facts(A, D, tol, bs):
        B2 = bs * bs
        return dict(
            rp=lambda i: sel(A.rp, i) == sel(D.rp, i),
            di=lambda i: sel(A.di, i) == sel(D.di, i),
            ci=lambda i: sel(A.ci, i) == sel(D.ci, i),
            va=lambda t: absv(sel(A.va, t) - sel(D.va, t)) <= tol)

    def cands(lc, c):
        if lc.iv is None:
            return []
        F = facts(c['A'], c['D'], c['tol'], bs)
        out = []
        B2 = bs * bs
        for r in new_regions(lc):
            for k, f, pat in ((1, 'rp', c['A'].rp), (4, 'di', c['A'].di), (2, 'ci', c['A'].ci)):
                def g(s, r=r, k=k, f=f, pat=pat):
                    return (flag(s, r, k) != 0) == forall(lambda i: (implies(z3.And(lc.iv0 <= i, i < lc.ivval(s)), F[f](i)), [sel(pat, i)]))
                out.append(('flag%d' % k, g))

            def gv(s, r=r, hi=lambda s: lc.ivval(s) * B2):
                return (flag(s, r, 3) != 0) == forall(lambda t: (implies(rng(0, t, hi(s)), F['va'](t)), [sel(c['A'].va, t)]))
            out.append(('flagv', gv))
            out.append(('flagvin', lambda s, gv=gv: None if outeriv(lc, s) is None else gv(s, hi=lambda s: outeriv(lc, s) * B2 + lc.ivval(s))))
        return out

    def post(ex, s, fl, val, c):
        A, D = c['A'], c['D']
        F = facts(A, D, c['tol'], bs)
        f = lambda k: boolat(ex, s, val, k)
        B2 = bs * bs
        ex.oblige(s, f(0) == (A.n == D.n), 'post: first flag compares the numbers of rows')
        same = z3.And(A.n == D.n, A.nnz == D.nnz)
        ex.oblige(s, implies(A.n == D.n, f(1) == z3.And(A.nnz == D.nnz, forall(lambda i: implies(rng(0, i, A.n), F['rp'](i))))), 'post: second flag compares the row pointers')
        ex.oblige(s, implies(same, f(2) == forall(lambda i: implies(rng(0, i, A.nnz), F['ci'](i)))), 'post: third flag compares the columns')
        ex.oblige(s, implies(same, f(3) == forall(lambda t: implies(rng(0, t, A.nnz * B2), F['va'](t)))), 'post: fourth flag compares the values')
        ex.oblige(s, implies(same, f(4) == forall(lambda i: implies(rng(0, i, A.n), F['di'](i)))), 'post: fifth flag compares the diagonal positions')
    return Task(cls(bs) + '::isEqual', [file_of(bs)], lambda f: f.qual == cls(bs) + '::isEqual', setup, post, cands, opts={'unroll': 6})


def boolat(ex, s, val, k):
    return sel(s.heap[val.reg], k) != 0


EQ = [isequal(bs) for bs in (1, 3, 7)]
for _t in EQ[1:]:
    _t.thorough_only = True     # two minutes each; the scalar instantiation shares the text
TASKS += EQ
