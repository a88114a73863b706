"""Jacobi, Gauss-Seidel and chaotic relaxation; inverse diagonals."""
import z3
from fw import *
import engine as E
import terms
from specs.matvec import ROW_S, ROW_M
from specs.tri import ghosts, cands_tri, exits_tri

FJ, FS, FC = 'src/solverops_jacobi.cpp', 'src/solverops_sgs.cpp', 'src/relaxation_chaotic.cpp'
# ghost: the iterates; Gt(t): state after t steps, Ft(t): state after the first half of step t
GT = z3.Function('Gt', I, AR)
FT = z3.Function('Ft', I, AR)
STOP = z3.Function('stop', I, z3.BoolSort())


def sq_term(bs):
    def f(a, b, j):
        if bs == 1:
            d = num(sel(a, j), 's') - num(sel(b, j), 's')
        else:
            d = num(terms.elem(sel(a, j / bs), j % bs), 's') - num(terms.elem(sel(b, j / bs), j % bs), 's')
        return d * d
    return f


SQ = {bs: terms.SumFn('sqdiff%d' % bs, [AR, AR], sq_term(bs), 's') for bs in (1, 4, 5)}


def names(base, bs, stor):
    t = {'jacobi': ('JacobiSRPreconditioner', 'BJacobiSRPreconditioner'), 'sgs': ('AsyncSGS_SRPreconditioner', 'AsyncBlockSGS_SRPreconditioner'),
         'chaotic': ('ChaoticRelaxation', 'ChaoticBlockRelaxation')}[base]
    if bs == 1:
        return '%s<double,int>' % t[0], 'blasted::%s<double, int>' % t[0]
    return '%s<double,int,%d,%d>' % (t[1], bs, stor), 'blasted::%s<double, int, %d, (blasted::StorageOptions)%d>' % (t[1], bs, stor)


FILE = {'jacobi': FJ, 'sgs': FS, 'chaotic': FC}


def base(b, bs, stor):
    k = 's' if bs == 1 else 'm'
    m = srmatrix(b, 'A', bs, stor, kind='raw', const=True, diag=True, tri=True, minnnz=0 if bs == 1 else 1)
    d = b.farr('dblocks', m.n, bs * bs, stor)
    c = dict(m=m, bs=bs, k=k, d=d, dh=b.heap(d))
    c['dinv'] = lambda i: num(sel(c['dh'], i), k)
    return c


# ------------------------------------------------------------------------------------------------- compute()
def compute_task(kind, bs, stor, first):
    q, cl = names(kind, bs, stor)
    k = 's' if bs == 1 else 'm'

    def setup(b):
        m = srmatrix(b, 'A', bs, stor, kind='raw', const=True, diag=True, tri=True, minnnz=0 if bs == 1 else 1)
        c = dict(m=m)
        f = dict(mat=m.obj, dblocks=b.null('double') if first else b.farr('dblocks', m.n, bs * bs, stor))
        if kind == 'sgs':
            f['ytemp'] = b.null('double') if first else b.farr('ytemp', m.n, bs)
        c['this'] = b.obj(cl, **f)
        c['args'] = []
        c['first'] = first
        return c

    def want(m, i):
        v = num(sel(m.va, sel(m.di, i)), k)
        return (terms.recip(v) if bs == 1 else terms.blkinv(v)).z()

    def cands(lc, c):
        m = c['m']
        out = []
        for r in new_regions(lc, R):
            out += rows_done(lc, 'inv(%s)' % r, lambda s, i, r=r: sel(s.heap[r], i) == want(m, i), lambda s, i, r=r: [sel(s.heap[r], i)])
        return out

    def post(ex, s, fl, val, c):
        m = c['m']
        p = s.objs[c['this'].ref.id if hasattr(c['this'], 'ref') else c['this'].id]['dblocks']
        ex.oblige(s, forall(lambda i: implies(rng(0, i, m.n), cell(s, p, i) == want(m, i))), 'post: every stored block is the inverse of the diagonal block')
        if kind == 'sgs':
            y = s.objs[c['this'].ref.id if hasattr(c['this'], 'ref') else c['this'].id]['ytemp']
            ex.oblige(s, z3.BoolVal(isinstance(y, E.Ptr) and not y.null and s.alive.get(y.reg) is not False), 'post: the work vector exists')
            ex.oblige(s, z3.BoolVal(s.regs[y.reg].unit == 1) if False else s.regs[y.reg].len * s.regs[y.reg].unit >= m.n * bs, 'post: the work vector is long enough')
    return Task('%s::compute%s' % (q, ' first' if first else ''), [FILE[kind], FJ], lambda f: f.qual == q + '::compute', setup, post, cands,
                opts={'par': 'sync', 'block': (bs * bs, stor)})


# ------------------------------------------------------------------------------------------------- preconditioner application
def jacobi_apply(bs, stor):
    q, cl = names('jacobi', bs, stor)

    def setup(b):
        c = base(b, bs, stor)
        m = c['m']
        r, z = b.farr('r', m.n, bs, const=True), b.farr('z', m.n, bs)
        c.update(r=r, z=z, this=b.obj(cl, mat=m.obj, dblocks=c['d']), args=[r, z])
        rh = b.heap(r)
        c['want'] = lambda i: (c['dinv'](i) * num(sel(rh, i), c['k'])).z()
        return c

    def cands(lc, c):
        return rows_done(lc, 'done', lambda s, i: sel(s.heap[c['z'].reg], i) == c['want'](i), lambda s, i: [sel(s.heap[c['z'].reg], i)])

    def post(ex, s, fl, val, c):
        ex.oblige(s, forall(lambda i: implies(rng(0, i, c['m'].n), sel(s.heap[c['z'].reg], i) == c['want'](i))), 'post: multiplied by the inverse diagonal')
        ex.oblige(s, s.heap[c['d'].reg] == c['dh'], 'post: inverse diagonal unchanged')
    return Task(q + '::apply', [FJ], lambda f: f.qual == q + '::apply', setup, post, cands, opts={'par': 'sync'})


def sgs_apply(bs, stor):
    q, cl = names('sgs', bs, stor)

    def setup(b):
        c = base(b, bs, stor)
        m, k = c['m'], c['k']
        r, z, y = b.farr('r', m.n, bs, const=True), b.farr('z', m.n, bs), b.farr('ytemp', m.n, bs)
        rh = b.heap(r)
        c['fac'] = m.va
        c['yeq'] = lambda i, t: c['dinv'](i) * (num(sel(rh, i), k) - t)
        c['zeq'] = lambda i, yy, t: yy - c['dinv'](i) * t
        c['rhs'] = lambda i: num(sel(rh, i), k)
        c['final'] = lambda i: num(sel(c['Z'], i), k)
        c['rhsc'] = lambda i, q: terms.elem(sel(rh, i), q)
        c['finalc'] = lambda i, q: terms.elem(sel(c['Z'], i), q)
        ghosts(b, c)
        ns, it = b.int('napplysweeps'), b.int('ainit')
        b.assume(ns >= 1, 0 <= it, it <= 2)
        c.update(y=y, z=z, this=b.obj(cl, mat=m.obj, dblocks=c['d'], ytemp=y, napplysweeps=ns, ainit=it, thread_chunk_size=b.int('tcs')), args=[r, z])
        return c

    def cands(lc, c):
        return cands_tri(lc, c, c['y'].reg, c['z'].reg)

    def exits(lc, s, c):
        return exits_tri(lc, s, c, c['z'].reg)

    def post(ex, s, fl, val, c):
        ex.oblige(s, forall(lambda i: implies(rng(0, i, c['m'].n), sel(s.heap[c['z'].reg], i) == sel(c['Z'], i))),
                  'post: the result is one forward and one backward substitution')
        ex.oblige(s, s.heap[c['d'].reg] == c['dh'], 'post: inverse diagonal unchanged')
    return Task(q + '::apply', [FS], lambda f: f.qual == q + '::apply', setup, post, cands, exits, budget=300)


# ------------------------------------------------------------------------------------------------- relaxation
def relax(kind, bs, stor, fname):
    """kind: jacobi (previous iterate only), chaotic (ascending), sgs (ascending then descending)"""
    q, cl = names(kind, bs, stor)
    S = ROW_S if bs == 1 else ROW_M
    k = 's' if bs == 1 else 'm'

    def setup(b):
        c = base(b, bs, stor)
        m = c['m']
        bb, x = b.farr('b', m.n, bs, const=True), b.farr('x', m.n, bs)
        bh, x0 = b.heap(bb), b.heap(x)
        its = b.int('its')
        c.update(x=x, its=its)

        def eq(i, lo, up):
            return (c['dinv'](i) * (num(sel(bh, i), k) - S(m.va, m.ci, lo, sel(m.rp, i), sel(m.di, i)) - S(m.va, m.ci, up, sel(m.di, i) + 1, sel(m.rp, i + 1)))).z()
        c['eq'] = eq
        # definition of the iterates, as invariants available at any step number
        if kind == 'jacobi':
            defs = [(GT, lambda t: t + 1, lambda t, i: eq(i, GT(t), GT(t)))]
        elif kind == 'chaotic':
            defs = [(GT, lambda t: t + 1, lambda t, i: eq(i, GT(t + 1), GT(t)))]
        else:
            defs = [(FT, lambda t: t, lambda t, i: eq(i, FT(t), GT(t))), (GT, lambda t: t + 1, lambda t, i: eq(i, FT(t), GT(t + 1)))]
        c['at'] = lambda t: [forall(lambda i: (implies(z3.And(t >= 0, rng(0, i, m.n)), sel(f(sh(t)), i) == e(t, i)), [sel(f(sh(t)), i)])) for f, sh, e in defs]
        for f, sh, e in defs:
            b.assume(forall(lambda t, i: (implies(z3.And(t >= 0, rng(0, i, m.n)), sel(f(sh(t)), i) == e(t, i)), [sel(f(sh(t)), i)]), 2))
        b.assume(forall(lambda i: (implies(rng(0, i, m.n), sel(GT(0), i) == sel(x0, i)), [sel(GT(0), i)])))
        f = dict(mat=m.obj, dblocks=c['d'])
        if fname == 'apply':
            f['napplysweeps'] = its
            f['thread_chunk_size'] = b.int('tcs')
        else:
            rt, at, dt, ct = b.scalar('rtol'), b.scalar('atol'), b.scalar('dtol'), b.bool('ctol')
            c['ctol'] = ct
            if kind != 'jacobi':
                f['thread_chunk_size'] = b.int('tcs')
            f['solveparams'] = b.obj('blasted::SolveParams<double>', rtol=rt, atol=at, dtol=dt, ctol=ct, maxits=its)
            if kind == 'jacobi':
                K = b.int('K')
                c['K'] = K
                sq = SQ[bs]
                D = lambda t: terms.num(terms.ssqrt(sq.z(GT(t + 1), GT(t), z3.IntVal(0), m.n * bs)), 's')
                c['D'] = D
                lim = z3.If(its > 0, its, 0)

                def stop(t):
                    rel = D(t) * terms.recip(D(z3.IntVal(0)))
                    return z3.And(ct, z3.Or(D(t).z() < at.z(), rel.z() < rt.z(), rel.z() > dt.z()))
                c['stop'] = stop
                b.assume(K >= 0, K <= lim, z3.Or(K == lim, z3.And(K >= 1, STOP(K - 1))))
                b.assume(forall(lambda t: (z3.Implies(z3.And(t >= 0, t < K - 1), z3.Not(STOP(t))), [STOP(t)])))
                b.assume(forall(lambda t: (z3.Implies(t >= 0, STOP(t) == stop(t)), [STOP(t)])))
        def instances(lc, s):
            if lc.iv is None or lc.ivstep != 1 or [L for L in lc.outer if L.iv is not None]:
                return []
            t = lc.ivval(s)
            o = c['at'](t)
            if 'stop' in c:
                o.append(z3.Implies(t >= 0, STOP(t) == c['stop'](t)))
            return o
        c['instances'] = instances
        if 'K' not in c:
            c['K'] = z3.If(its > 0, its, 0)
        c['this'] = b.obj(cl, **f)
        c['args'] = [bb, x]
        return c

    def steps(lc, s):
        o = [L for L in lc.outer if L.iv is not None]
        return (o[0].ivval(s) if o else lc.ivval(s)), len(o)

    def cands(lc, c):
        m, X = c['m'], c['x'].reg
        out = []
        if lc.iv is None:
            return out
        pt = lambda rid: (lambda s, i: [sel(s.heap[rid], i)])
        T = lambda s: steps(lc, s)[0]
        depth = steps(lc, lc.entry)[1]
        h = lambda s, rid=X: s.heap[rid]
        if depth == 0:
            out.append(('iterate', lambda s: forall(lambda i: (implies(rng(0, i, m.n), sel(h(s), i) == sel(GT(lc.ivval(s)), i)), [sel(h(s), i)]))))
            if 'stop' in c:
                out.append(('go-on', lambda s: forall(lambda t: (z3.Implies(z3.And(lc.iv0 <= t, t < lc.ivval(s)), z3.Not(STOP(t))), [STOP(t)]))))
                for key in lc.mods:
                    if key[0] == 'l' and isinstance(lc.entry.env.get(key[1]), Num):
                        out.append(('ref(%s)' % key[1][1][-4:], lambda s, kk=key[1]: z3.Implies(z3.And(c['ctol'], lc.ivval(s) > lc.iv0), s.env[kk].z() == c['D'](z3.IntVal(0)).z())))
        vecs = [('G', lambda s: GT(T(s))), ('G1', lambda s: GT(T(s) + 1))] + ([('F', lambda s: FT(T(s)))] if kind == 'sgs' else [])
        if depth >= 1:
            for r in new_regions(lc, R):
                for nm, v in vecs:
                    out += rows_done(lc, '%s=%s' % (r, nm), lambda s, i, r=r, v=v: sel(s.heap[r], i) == sel(v(s), i), pt(r))
                    if bs > 1:
                        if s_unit(lc, r) == bs:
                            out += flat_done(lc, '%s=%s' % (r, nm), r, bs, lambda s, b, cc, v=v: terms.elem(sel(v(s), b), cc))
                        else:
                            # the temporary is viewed scalar by scalar
                            pass
            if 'D' in c:
                for nm, get in real_cells(lc):
                    out.append(('norm(%s)' % nm, lambda s, get=get: get(s).z() == SQ[bs].z(GT(T(s) + 1), GT(T(s)), z3.IntVal(0), lc.ivval(s))))
            for r in new_regions(lc, R):
                pass
            regs = [X]
            out += accum(lc, [('row-' + nm, lambda s, lo, hi: S(m.va, m.ci, h(s), lo, hi)) for nm in ('x',)], [Num.const(1)])
        return out

    def s_unit(lc, r):
        return lc.entry.regs[r].unit

    def exits(lc, s, c):
        if bs == 1 or len([L for L in lc.outer if L.iv is not None]) != 1 or ('h', c['x'].reg) not in lc.mods:
            return []
        t = steps(lc, s)[0]
        out = []
        for v in (GT(t + 1),):
            g, f = flat_exit(c['x'].reg, bs, c['m'].n, lambda s, b, v=v: num(sel(v, b), 'm'))
            out.append((g(s), f(s)))
        return out

    def post(ex, s, fl, val, c):
        m = c['m']
        ex.oblige(s, forall(lambda i: implies(rng(0, i, m.n), sel(s.heap[c['x'].reg], i) == sel(GT(c['K']), i))),
                  'post: exactly the documented number of row-update steps')
        ex.oblige(s, s.heap[c['d'].reg] == c['dh'], 'post: inverse diagonal unchanged')
    opts = {'block': (bs, 0)}
    if kind == 'jacobi':
        opts['par'] = 'sync'
    return Task(q + '::' + fname, [FILE[kind], FJ], lambda f: f.qual == q + '::' + fname, setup, post, cands, exits, opts=opts, budget=300)


INST = ((1, 0), (4, 0), (5, 0), (4, 1))
SGS = [sgs_apply(b, s) for b, s in INST] + [relax('sgs', b, s, 'apply_relax') for b, s in INST] + \
      [compute_task('sgs', b, s, f) for b, s in INST for f in (True, False)]
REL = [jacobi_apply(b, s) for b, s in INST] + [relax('jacobi', b, s, 'apply_relax') for b, s in INST] + \
      [relax('chaotic', b, s, f) for b, s in INST for f in ('apply', 'apply_relax')] + \
      [compute_task('jacobi', b, s, f) for b, s in INST for f in (True, False)]
for t in SGS:
    t.group = 'sgs'
for t in REL:
    t.group = 'rel'
TASKS = SGS + REL
