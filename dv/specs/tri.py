"""Application of incomplete factors: two triangular solves."""
import z3
from fw import *
import engine as E
import terms
from specs.matvec import ROW_S, ROW_M

F = 'src/solverops_ilu0.cpp'


def ghosts(b, c):
    """the solutions of the two triangular systems, row by row (they exist and are unique: each row refers to earlier rows only)"""
    m, bs, k = c['m'], c['bs'], c['k']
    S = ROW_S if bs == 1 else ROW_M
    V = c['fac']
    c['Y'], c['Z'] = z3.Const('Ysol', AR), z3.Const('Zsol', AR)
    Y, Z = c['Y'], c['Z']
    b.assume(forall(lambda i: (implies(rng(0, i, m.n), sel(Y, i) == c['yeq'](i, S(V, m.ci, Y, sel(m.rp, i), sel(m.di, i))).z()), [sel(Y, i)])))
    b.assume(forall(lambda i: (implies(rng(0, i, m.n), sel(Z, i) == c['zeq'](i, num(sel(Y, i), k), S(V, m.ci, Z, sel(m.di, i) + 1, sel(m.rp, i + 1))).z()), [sel(Z, i)])))


def cands_tri(lc, c, lower, upper):
    """lower/upper: region ids of the two vectors"""
    m, bs, k = c['m'], c['bs'], c['k']
    S = ROW_S if bs == 1 else ROW_M
    out = []
    Y, Z = c['Y'], c['Z']
    own = 'i'
    nout = [x for x in lc.outer if x.iv is not None]
    if lc.iv is None:
        return out
    for rid, tgt, nm in ((lower, Y, 'lower'), (upper, Z, 'upper')):
        if ('h', rid) in lc.mods:
            eq = lambda s, q, rid=rid, tgt=tgt: sel(s.heap[rid], q) == sel(tgt, q)
            pt = lambda s, q, rid=rid: [sel(s.heap[rid], q)]
            out += rows_done(lc, nm, eq, pt)
            out += all_sweeps(lc, nm, eq, pt, m.n)
    if ('h', upper) in lc.mods:
        if bs == 1:
            out += rows_done(lc, 'rhs', lambda s, q: sel(s.heap[upper], q) == c['rhs'](q).z(), lambda s, q: [sel(s.heap[upper], q)])
            out += rows_done(lc, 'final', lambda s, q: sel(s.heap[upper], q) == c['final'](q).z(), lambda s, q: [sel(s.heap[upper], q)])
        else:
            out += flat_done(lc, 'rhs', upper, bs, lambda s, b, cc: c['rhsc'](b, cc))
            out += flat_done(lc, 'final', upper, bs, lambda s, b, cc: c['finalc'](b, cc))
    # partial dot products
    out += accum(lc, [('row', lambda s, lo, hi: S(c['fac'], m.ci, s.heap[lower], lo, hi)), ('row', lambda s, lo, hi: S(c['fac'], m.ci, s.heap[upper], lo, hi))], [Num.const(1)])
    return out


def exits_tri(lc, s, c, upper):
    if c['bs'] == 1 or lc.outer or ('h', upper) not in lc.mods:
        return []
    out = []
    for w in (c['rhs'], c['final']):
        g, f = flat_exit(upper, c['bs'], c['m'].n, lambda s, b, w=w: w(b))
        out.append((g(s), f(s)))
    return out


def apply_task(bs, stor, scaled, cls=True):
    if bs == 1:
        q = 'AsyncILU0_SRPreconditioner<double,int>::apply'
        ty_ = 'blasted::AsyncILU0_SRPreconditioner<double, int>'
    else:
        q = 'AsyncBlockILU0_SRPreconditioner<double,int,%d,%d>::apply' % (bs, stor)
        ty_ = 'blasted::AsyncBlockILU0_SRPreconditioner<double, int, %d, (blasted::StorageOptions)%d>' % (bs, stor)
    k = 's' if bs == 1 else 'm'

    def setup(b):
        m = srmatrix(b, 'A', bs, stor, kind='raw', const=True, diag=True, tri=True, minnnz=0 if bs == 1 else 1)
        ilu = b.farr('ilu', m.nnz, bs * bs, stor)
        y, z, r = b.farr('ytemp', m.n, bs), b.farr('z', m.n, bs), b.farr('r', m.n, bs, const=True)
        sc = b.farr('scale', m.n, bs) if scaled else b.null('double')
        c = dict(m=m, bs=bs, k=k, y=y, z=z, r=r, sc=sc, fac=b.heap(ilu), frozen=[ilu] + ([sc] if scaled else []))
        rh = b.heap(r)
        if scaled:
            sh = b.heap(sc)
            c['rhs'] = lambda i: blockof(bs, [comp(num(sel(sh, i), k), q, bs) * comp(num(sel(rh, i), k), q, bs) for q in range(bs)])
            c['final'] = lambda i: blockof(bs, [comp(num(sel(c['Z'], i), k), q, bs) * comp(num(sel(sh, i), k), q, bs) for q in range(bs)])
            c['rhsc'] = lambda i, q: terms.smul(terms.elem(sel(sh, i), q), terms.elem(sel(rh, i), q))
            c['finalc'] = lambda i, q: terms.smul(terms.elem(sel(c['Z'], i), q), terms.elem(sel(sh, i), q))
        else:
            c['rhs'] = lambda i: num(sel(rh, i), k)
            c['final'] = lambda i: num(sel(c['Z'], i), k)
            c['rhsc'] = lambda i, q: terms.elem(sel(rh, i), q)
            c['finalc'] = lambda i, q: terms.elem(sel(c['Z'], i), q)
        if bs == 1:
            c['dinv'] = lambda i: terms.recip(num(sel(c['fac'], sel(m.di, i)), 's'))
        else:
            c['dinv'] = lambda i: num(sel(c['fac'], sel(m.di, i)), 'm')
        c['yeq'] = lambda i, t: c['rhs'](i) - t
        c['zeq'] = lambda i, y, t: c['dinv'](i) * (y - t)
        ghosts(b, c)
        ns, it = b.int('napplysweeps'), b.int('inittype')
        b.assume(ns >= 1, 0 <= it, it <= 2)
        c['this'] = b.obj(ty_, mat=m.obj, iluvals=ilu, scale=sc, ytemp=y, usescaling=z3.BoolVal(scaled), threadedapply=b.bool('thr'),
                          napplysweeps=ns, thread_chunk_size=b.int('tcs'), applyinittype=it)
        c['args'] = [r, z]
        return c

    def cands(lc, c):
        return cands_tri(lc, c, c['y'].reg, c['z'].reg)

    def exits(lc, s, c):
        return exits_tri(lc, s, c, c['z'].reg)

    def post(ex, s, fl, val, c):
        m = c['m']
        ex.oblige(s, forall(lambda i: implies(rng(0, i, m.n), sel(s.heap[c['z'].reg], i) == c['final'](i).z())),
                  'post: the result solves the scaled lower and upper triangular systems')
        for p in c['frozen']:
            ex.oblige(s, s.heap[p.reg] == c['entry'].heap[p.reg], 'post: %s unchanged' % p.reg)
    return Task('%s%s' % (q, ' scaled' if scaled else ''), [F], lambda f: f.qual == q, setup, post, cands, exits, budget=300)


TASKS = [apply_task(b, st, sc) for b, st in ((1, 0), (4, 0), (5, 0), (4, 1)) for sc in (False, True)]
