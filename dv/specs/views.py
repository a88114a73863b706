"""Triangular views, shallow views, deep copies, scaling vector."""
import z3
from fw import *
import terms

F = 'src/rawsrmatrixutils.cpp'
ILEN = terms.SumFn('rowlen', [AI, AI], lambda e, b, j: sel(e, j) - sel(b, j), 'i')        # end minus begin
ILEN1 = terms.SumFn('rowlen1', [AI, AI], lambda e, b, j: sel(e, j) - sel(b, j) + 1, 'i')


def getsum(which, m, lo, hi):
    if which == 'lower':
        return ILEN1.z(m.di, m.rp, lo, hi)
    return ILEN.z(m.endarr, m.di, lo, hi)


def endarr(b, m):
    return m._en if hasattr(m, '_en') else m.rp


def triangular(which, kind):
    name = 'getLowerTriangularView' if which == 'lower' else 'getUpperTriangularView'
    pt = 'CRawBSRMatrix' if kind == 'raw' else 'SRMatrixStorage'

    def select(f):
        return f.name == name and f.params and pt in ty(f.params[0])

    def setup(b):
        m = srmatrix(b, 'A', 1, 0, kind=kind, const=True, sorted_=True, diag=True, compact=False, minnnz=1)
        m.endarr = m._en
        # sorted rows with a diagonal entry: the last row ends with the diagonal entry
        b.assume(m.n >= 1, sel(m._en, m.n - 1) == sel(m.di, m.n - 1) + 1)
        return dict(m=m, this=None, args=[m.obj])

    def begin(m, i):
        return sel(m.rp, i) if which == 'lower' else sel(m.di, i)

    def end(m, i):
        return sel(m.di, i) + 1 if which == 'lower' else sel(m._en, i)

    def cands(lc, c):
        m = c['m']
        out = iaccum(lc, [('nnz', lambda s, lo, hi: getsum(which, m, lo, hi))])
        for r in new_regions(lc):
            for nm, fn in (('begin', begin), ('end', end)):
                out += rows_done(lc, '%s(%s)' % (nm, r), lambda s, q, r=r, fn=fn: sel(s.heap[r], q) == fn(m, q),
                                 lambda s, q, r=r: [sel(s.heap[r], q)])
        return out

    def post(ex, s, fl, val, c):
        m = c['m']
        o = s.objs[val.id]
        P = (lambda f: o[f]) if kind == 'raw' else (lambda f: av_ptr(s, o[f]))
        for f, p in (('bcolind', m.pcol), ('vals', m.pval), ('diagind', m.pdiag)):
            q = P(f)
            ex.oblige(s, z3.And(z3.BoolVal(q.reg == p.reg), q.off == 0), 'post: the view shares ' + f)
        ex.oblige(s, z3.And(o['nbrows'] == m.n, o['nbstored'] == m.nnz), 'post: sizes')
        ex.oblige(s, o['nnzb'] == getsum(which, m, z3.IntVal(0), m.n), 'post: number of blocks')
        for f, fn in (('browptr', begin), ('browendptr', end)):
            q = P(f)
            ex.oblige(s, z3.BoolVal(q.reg is not None and s.alive.get(q.reg) is True), 'post: fresh array ' + f)
            ex.oblige(s, forall(lambda i: implies(rng(0, i, m.n), cell(s, q, i) == fn(m, i))), 'post: row bounds in ' + f)
        if kind == 'storage':
            for f, ln, own in (('browptr', m.n, True), ('browendptr', m.n, True), ('bcolind', m.nnz, False), ('vals', m.nnz, False),
                               ('diagind', m.n, False)):
                a = s.objs[o[f].id]
                ex.oblige(s, z3.And(a['len'] == ln, a['owner'] == own), 'post: length and ownership of ' + f)
        # the entries of the view are exactly those on that side of the diagonal
        side = (lambda i, col: col <= i) if which == 'lower' else (lambda i, col: col >= i)
        bp, ep = P('browptr'), P('browendptr')
        ex.oblige(s, forall(lambda i, j: implies(z3.And(rng(0, i, m.n), sel(m.rp, i) <= j, j < m.en(i)),
                                                 z3.And(cell(s, bp, i) <= j, j < cell(s, ep, i)) == side(i, sel(m.ci, j))), 2),
                  'post: exactly the entries on one side of the diagonal')
    return Task('%s(%s)' % (name, kind), [F], select, setup, post, cands)


def copytask(bs):
    q = 'copyRawBSRMatrix<double,int,%d>' % bs

    def setup(b):
        m = srmatrix(b, 'A', bs, 0, kind='raw', const=True)
        return dict(m=m, this=None, args=[m.obj])

    def cands(lc, c):
        m = c['m']
        out = []
        for r in new_regions(lc):
            for nm, src in (('rp', m.rp), ('ci', m.ci), ('di', m.di)):
                out += rows_done(lc, 'copy-%s(%s)' % (nm, r), lambda s, k, r=r, src=src: sel(s.heap[r], k) == sel(src, k),
                                 lambda s, k, r=r: [sel(s.heap[r], k)])
        for r in new_regions(lc, R):
            out += rows_done(lc, 'copy-vals(%s)' % r, lambda s, k, r=r: sel(s.heap[r], k) == sel(m.va, k),
                             lambda s, k, r=r: [sel(s.heap[r], k)])
        return out

    def post(ex, s, fl, val, c):
        m = c['m']
        o = s.objs[val.id]
        ex.oblige(s, z3.And(o['nbrows'] == m.n, o['nnzb'] == m.nnz, o['nbstored'] == m.nnz), 'post: sizes')
        for f, src, ln in (('browptr', m.rp, m.n + 1), ('bcolind', m.ci, m.nnz), ('diagind', m.di, m.n), ('vals', m.va, m.nnz)):
            q = o[f]
            ex.oblige(s, z3.BoolVal(q.reg is not None and s.alive.get(q.reg) is True), 'post: fresh array ' + f)
            ex.oblige(s, forall(lambda i: implies(rng(0, i, ln), cell(s, q, i) == sel(src, i))), 'post: equal contents ' + f)
        e = o['browendptr']
        ex.oblige(s, z3.Or(m.n == 0, z3.And(z3.BoolVal(getattr(e, 'reg', None) == o['browptr'].reg), getattr(e, 'off', z3.IntVal(0)) == 1)),
                  'post: row ends of the copy are its own row pointers')
    return Task(q, [F], lambda f: f.qual == q, setup, post, cands, opts={'par': 'sync', 'block': (bs * bs, 0)})


def scaletask(bs):
    q = 'getScalingVector<double,int,%d>' % bs

    def setup(b):
        m = srmatrix(b, 'A', bs, 0, kind='raw', const=True, diag=True)
        sc = b.farr('scale', m.n, bs)
        return dict(m=m, sc=sc, this=None, args=[b_objptr(m.obj), sc])

    def want(m, i):
        d = num(sel(m.va, sel(m.di, i)), 's' if bs == 1 else 'm')
        if bs == 1:
            return terms.recip(num(terms.ssqrt(d.z()), 's')).z()
        return terms.mkblk(bs, 1, [terms.recip(num(terms.ssqrt(terms.component(d, j * bs + j).z()), 's')) for j in range(bs)])

    def cands(lc, c):
        m, sc = c['m'], c['sc']
        return rows_done(lc, 'scale', lambda s, i: sel(s.heap[sc.reg], i) == want(m, i), lambda s, i: [sel(s.heap[sc.reg], i)])

    def post(ex, s, fl, val, c):
        m, sc = c['m'], c['sc']
        ex.oblige(s, forall(lambda i: implies(rng(0, i, m.n), sel(s.heap[sc.reg], i) == want(m, i))),
                  'post: reciprocal square roots of the diagonal')
    return Task(q, [F], lambda f: f.qual == q, setup, post, cands, opts={'par': 'sync'})


def rawview():
    def setup(b):
        m = srmatrix(b, 'A', 1, 0, const=True, compact=False)
        b.assume(m.n >= 1, m.nnz >= 1)
        return dict(m=m, this=None, args=[m.obj])

    def post(ex, s, fl, val, c):
        m = c['m']
        o = s.objs[val.id]
        ex.oblige(s, z3.And(o['nbrows'] == m.n, o['nnzb'] == m.nnz, o['nbstored'] == m.nnz), 'post: sizes')
        for f, p in (('browptr', m.pbrow), ('bcolind', m.pcol), ('vals', m.pval), ('diagind', m.pdiag), ('browendptr', m.pend)):
            q = o[f]
            ex.oblige(s, z3.And(z3.BoolVal(q.reg == p.reg), q.off == p.off), 'post: the view shares ' + f)
    return Task('createRawView', [F], lambda f: f.name == 'createRawView', setup, post)


def share(bs):
    def setup(b):
        m = srmatrix(b, 'A', bs, 0, const=False, compact=False)
        b.assume(m.n >= 1, m.nnz >= 1)
        return dict(m=m, this=None, args=[m.obj, z3.IntVal(bs)])

    def post(ex, s, fl, val, c):
        m = c['m']
        o = s.objs[val.id]
        ex.oblige(s, z3.And(o['nbrows'] == m.n, o['nnzb'] == m.nnz, o['nbstored'] == m.nnz), 'post: sizes')
        for f, p, ln in (('browptr', m.pbrow, m.n + 1), ('bcolind', m.pcol, m.nnz), ('vals', m.pval, m.nnz * (bs * bs)),
                         ('diagind', m.pdiag, m.n), ('browendptr', m.pend, m.n)):
            a = s.objs[o[f].id]
            ex.oblige(s, z3.And(z3.BoolVal(a['data'].reg == p.reg), a['data'].off == p.off), 'post: shared ' + f)
            ex.oblige(s, z3.And(a['len'] == ln, z3.Not(a['owner'])), 'post: length and ownership of ' + f)
    return Task('share_with_const(bs=%d)' % bs, [F], lambda f: f.name == 'share_with_const', setup, post)


TASKS = [triangular(w, k) for w in ('lower', 'upper') for k in ('raw', 'storage')]
TASKS += [copytask(b) for b in (1, 4, 5)] + [scaletask(b) for b in (1, 4, 5)] + [rawview(), share(1), share(4)]
