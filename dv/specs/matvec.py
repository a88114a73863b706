"""Matrix-vector products."""
import z3
from fw import *
import terms

F = 'src/blas/matvecs.cpp'


def term_csr(va, ci, x, j):
    return num(sel(va, j), 's') * num(sel(x, sel(ci, j)), 's')


def term_bsr(va, ci, x, j):
    return num(sel(va, j), 'm') * num(sel(x, sel(ci, j)), 'm')


ROW_S = terms.SumFn('rowsum_s', [AR, AI, AR], term_csr, 's')
ROW_M = terms.SumFn('rowsum_m', [AR, AI, AR], term_bsr, 'm')


def make(qual, bs, stor, gemv, const, view=None):
    S = ROW_S if bs == 1 else ROW_M
    k = 's' if bs == 1 else 'm'

    def setup(b):
        m = srmatrix(b, 'A', bs, stor, const=const, minnnz=1 if bs > 1 else 0)
        x = b.farr('x', m.n, bs, const=True)
        c = dict(m=m, x=x, this=None)
        if gemv:
            y = b.farr('y', m.n, bs, const=True)
            z = b.farr('z', m.n, bs)
            c['al'], c['be'] = b.scalar('alpha'), b.scalar('beta')
            c['args'] = ([] if view else [m.obj]) + [c['al'], x, c['be'], y, z]
            c['out'], c['y'] = z, y
        else:
            y = b.farr('y', m.n, bs)
            c['args'] = ([] if view else [m.obj]) + [x, y]
            c['out'] = y
        if view:
            c['this'] = b.obj(view, mat=m.obj)
        return c

    def want(c, r):
        m = c['m']
        b = c['b']
        s = S(m.va, m.ci, b.heap(c['x']), sel(m.rp, r), sel(m.rp, r + 1))
        if gemv:
            return c['al'] * s + c['be'] * num(sel(b.heap(c['y']), r), k)
        return s

    def cands(lc, c):
        m = c['m']
        x = c['b'].heap(c['x'])
        coefs = [Num.const(1)] + ([c['al']] if gemv else [])
        out = accum(lc, [('row', lambda s, lo, hi: S(m.va, m.ci, x, lo, hi))], coefs)
        out += rows_done(lc, 'rows', lambda s, r: sel(s.heap[c['out'].reg], r) == want(c, r).z(),
                         lambda s, r: [sel(s.heap[c['out'].reg], r)])
        return out

    def post(ex, s, fl, val, c):
        m = c['m']
        ex.oblige(s, forall(lambda r: implies(rng(0, r, m.n), sel(s.heap[c['out'].reg], r) == want(c, r).z())),
                  'post: every row is the %s' % ('scaled sum' if gemv else 'row sum'))
    return Task(qual, ([F] if not view else ['src/csrmatrix.cpp' if bs == 1 else 'src/bsrmatrix.cpp', F, 'src/rawsrmatrixutils.cpp']), lambda f: f.qual == qual, setup, post, cands, opts={'par': 'sync'})


TASKS = []
for cst in ('', 'const'):
    for bs, stor in ((3, 0), (4, 0), (5, 0), (7, 0), (3, 1), (4, 1), (7, 1)):
        for g in (False, True):
            q = 'BLAS_BSR<%sdouble,%sint,%d,%d>::%s' % (cst, cst, bs, stor, 'gemv3' if g else 'matrix_apply')
            TASKS.append(make(q, bs, stor, g, cst != ''))
    for g in (False, True):
        q = 'BLAS_CSR<%sdouble,%sint>::%s' % (cst, cst, 'gemv3' if g else 'matrix_apply')
        TASKS.append(make(q, 1, 0, g, cst != ''))

# the matrix and view classes: their products are those of their own storage
for bs, stor in ((3, 1), (4, 1), (7, 1), (3, 0), (4, 0), (5, 0), (7, 0)):
    for g in (False, True):
        TASKS.append(make('BSRMatrixView<double,int,%d,%d>::%s' % (bs, stor, 'gemv3' if g else 'apply'), bs, stor, g, True,
                          'blasted::BSRMatrixView<double, int, %d, (blasted::StorageOptions)%d>' % (bs, stor)))
for g in (False, True):
    w = 'gemv3' if g else 'apply'
    TASKS.append(make('CSRMatrixView<double,int>::' + w, 1, 0, g, True, 'blasted::CSRMatrixView<double, int>'))
    for bs in (1, 3, 7):
        TASKS.append(make('BSRMatrix<double,int,%d>::%s' % (bs, w), bs, 1 if bs > 1 else 0, g, False, 'blasted::BSRMatrix<double, int, %d>' % bs))
