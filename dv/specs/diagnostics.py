"""Diagnostics: largest component of a vector, diagonal dominance of triangular factors."""
import z3
from fw import *
import terms
import engine as E

F = 'src/matrix_properties.cpp'


def absz(z):
    return z3.If(z >= 0, z, -z)


def flat(bs, stor, i, j):
    return i * bs + j if stor else j * bs + i


def ent(bs, stor, va, j, r, c):
    """entry (r, c) of stored block j"""
    v = sel(va, j)
    return v if bs == 1 else terms.elem(v, z3.IntVal(flat(bs, stor, r, c)))


_rows = {}


def rowabs(bs, stor, r):
    """sum over a range of stored blocks of the magnitudes in their row r"""
    k = (bs, stor, r)
    if k not in _rows:
        def term(va, j):
            return Num.atom(sum((absz(ent(bs, stor, va, j, r, c)) for c in range(bs)), z3.RealVal(0)), 's')
        _rows[k] = terms.SumFn('rowabs_%d_%d_%d' % k, [AR], lambda va, j: sumnum([Num.atom(absz(ent(bs, stor, va, j, r, c)), 's') for c in range(bs)]), 's')
    return _rows[k]


def sumnum(xs):
    t = Num.const(0)
    for x in xs:
        t = t + x
    return t


def low(bs, stor, rp, di, va, i, r):
    """dominance of row (i, r) of the unit lower factor"""
    return Num.const(1) - rowabs(bs, stor, r)(va, sel(rp, i), sel(di, i))


def offdiag(bs, stor, va, j, r):
    return sumnum([Num.atom(absz(ent(bs, stor, va, j, r, c)), 's') for c in range(bs) if c != r])


def upp(bs, stor, di, en, va, i, r):
    """dominance of row (i, r) of the upper factor"""
    d = sel(di, i)
    off = offdiag(bs, stor, va, d, r) + rowabs(bs, stor, r)(va, d + 1, sel(en, i))
    return Num.const(1) - off * terms.recip(Num.atom(absz(ent(bs, stor, va, d, r, r)), 's'))


def dominance(bs, stor):
    q = 'diagonal_dominance<double,int,%d,%d>' % (bs, stor)
    LAVG = terms.SumFn('lavg_%d_%d' % (bs, stor), [AI, AI, AR], lambda rp, di, va, i: sumnum([low(bs, stor, rp, di, va, i, r) for r in range(bs)]), 's')
    UAVG = terms.SumFn('uavg_%d_%d' % (bs, stor), [AI, AI, AR], lambda di, en, va, i: sumnum([upp(bs, stor, di, en, va, i, r) for r in range(bs)]), 's')

    def setup(b):
        m = srmatrix(b, 'A', bs, stor, const=True, diag=True, compact=False, minnnz=1)
        b.assume(m.n >= 1)
        for r in range(bs):
            b.assume(forall(lambda i: (implies(rng(0, i, m.n), ent(bs, stor, m.va, sel(m.di, i), r, r) != 0), [sel(m.di, i)])))
        # order facts about real products and reciprocals (the products themselves are uninterpreted)
        x, y = z3.Reals('x y')
        b.assume(E.qall([x, y], implies(z3.And(x >= 0, y >= 0), terms.smul(x, y) >= 0), [terms.smul(x, y)]))
        b.assume(E.qall([x], implies(x > 0, terms.sinv(x) > 0), [terms.sinv(x)]))
        lb = {'L': fresh('lowerbound', R), 'U': fresh('lowerbound', R)}
        c = dict(m=m, this=None, args=[m.obj], lb=lb)
        for w in 'LU':
            b.assume(lb[w] <= 10 ** 30)
            for r in range(bs):
                b.assume(forall(lambda i: (implies(rng(0, i, m.n), lb[w] <= val(c, w, i, r)), [sel(m.di, i)])))
        return c

    def val(c, w, i, r):
        m = c['m']
        return (low(bs, stor, m.rp, m.di, m.va, i, r) if w == 'L' else upp(bs, stor, m.di, m._en, m.va, i, r)).z()

    def cands(lc, c):
        m = c['m']
        out = accum(lc, [('row%d' % r, lambda s, lo, hi, r=r: rowabs(bs, stor, r)(m.va, lo, hi)) for r in range(bs)] +
                    [('lavg', lambda s, lo, hi: LAVG(m.rp, m.di, m.va, lo, hi)), ('uavg', lambda s, lo, hi: UAVG(m.di, m._en, m.va, lo, hi))], (1,))
        if lc.iv is None:
            return out
        for nm, get in real_cells(lc):
            out.append(('nonneg(%s)' % nm, lambda s, get=get: get(s).z() >= 0))
            if len([x for x in lc.outer if x.iv is not None]) == 0:
                out.append(('below(%s)' % nm, lambda s, get=get: z3.Or(lc.ivval(s) <= lc.iv0, get(s).z() <= 1)))
                for w in 'LU':
                    out.append(('glb%s(%s)' % (w, nm), lambda s, get=get, w=w: c['lb'][w] <= get(s).z()))
                    for r in range(bs):
                        out.append(('lb%s%d(%s)' % (w, r, nm), lambda s, get=get, w=w, r=r: forall(lambda i: (implies(z3.And(lc.iv0 <= i, i < lc.ivval(s)), get(s).z() <= val(c, w, i, r)), [sel(m.di, i)]))))
        return out

    def post(ex, s, fl, v, c):
        m = c['m']
        res = [num(z3.simplify(cell(s, v, k)), 's') for k in range(4)]
        cnt = terms.recip(ex.as_num(z3.simplify(m.n * bs)))
        ex.oblige(s, res[0].z() == (LAVG(m.rp, m.di, m.va, z3.IntVal(0), m.n) * cnt).z(), 'post: average dominance of the lower factor')
        ex.oblige(s, res[2].z() == (UAVG(m.di, m._en, m.va, z3.IntVal(0), m.n) * cnt).z(), 'post: average dominance of the upper factor')
        for w, k, nm in (('L', 1, 'lower'), ('U', 3, 'upper')):
            ex.oblige(s, c['lb'][w] <= res[k].z(), 'post: the %s minimum is no smaller than every row allows' % nm)
            for r in range(bs):
                ex.oblige(s, forall(lambda i: implies(rng(0, i, m.n), res[k].z() <= val(c, w, i, r))), 'post: no row is less dominant than the %s minimum' % nm)
            ex.oblige(s, res[k].z() <= 1, 'post: the %s minimum is the value of some row' % nm)
    return Task(q, [F], lambda f: f.qual == q, setup, post, cands, opts={'par': 'sync', 'unroll': 6, 'merge': True})


def maxnorm():
    def setup(b):
        n = b.int('n')
        b.assume(n >= 0)
        rid = b.ex.new_region(b.st, 'v', R, 1, None, 's')
        o = b.ex.new_obj(b.st, 'std::vector<double>')
        b.st.objs[o.id].update(rid=rid, len=n, et=E.Opaque('double'))
        a = b.st.heap[rid]
        ub = fresh('upperbound', R)
        b.assume(ub >= 0, forall(lambda i: (implies(rng(0, i, n), absz(sel(a, i)) <= ub), [sel(a, i)])))
        return dict(this=None, args=[o], n=n, a=a, rid=rid, ub=ub)

    def cands(lc, c):
        out = []
        if lc.iv is None:
            return out
        for nm, get in real_cells(lc):
            out += [('nonneg', lambda s, get=get: get(s).z() >= 0), ('lub', lambda s, get=get: get(s).z() <= c['ub']),
                    ('ub', lambda s, get=get: forall(lambda i: (implies(z3.And(lc.iv0 <= i, i < lc.ivval(s)), absz(sel(c['a'], i)) <= get(s).z()), [sel(c['a'], i)])))]
        return out

    def post(ex, s, fl, v, c):
        z = ex.as_num(v).z()
        ex.oblige(s, forall(lambda i: implies(rng(0, i, c['n']), absz(sel(c['a'], i)) <= z)), 'post: no component is larger')
        ex.oblige(s, z3.And(z >= 0, z <= c['ub']), 'post: no smaller number bounds every component (zero for a zero or empty vector)')
        ex.oblige(s, s.heap[c['rid']] == c['a'], 'post: the vector is unchanged')
    return Task('maxnorm', ['src/blas/blas1.cpp'], lambda f: f.name == 'maxnorm', setup, post, cands, opts={'par': 'sync'})


TASKS = [maxnorm()] + [dominance(bs, stor) for bs, stor in ((1, 0), (4, 0), (5, 0), (4, 1))]

for t in TASKS:
    t.budget = 300
