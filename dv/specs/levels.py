"""Level-scheduled Gauss-Seidel and incomplete-LU application: any number of threads inside a level."""
import z3
from fw import *
import engine as E
import terms
from specs.matvec import ROW_S, ROW_M
from specs.tri import ghosts, exits_tri
from specs.relax import GT, FT, base

FG, FI = 'src/solverops_levels_sgs.cpp', 'src/solverops_levels_ilu0.cpp'


def lname(kind, bs, stor):
    n = {'sgs': ('Level_SGS', 'Level_BSGS'), 'ilu': ('Async_Level_ILU0', 'Async_Level_BlockILU0')}[kind]
    if bs == 1:
        return '%s<double,int>' % n[0], 'blasted::%s<double, int>' % n[0]
    return '%s<double,int,%d,%d>' % (n[1], bs, stor), 'blasted::%s<double, int, %d, (blasted::StorageOptions)%d>' % (n[1], bs, stor)


def schedule(b, m):
    """levels: consecutive groups covering all rows; no stored off-diagonal entry joins two rows of one group (property P09)"""
    nl = b.int('nlevels')
    rid = b.ex.new_region(b.st, 'levels', I, 1, None, 's', const=True)
    o = b.ex.new_obj(b.st, 'std::vector<int>')
    b.st.objs[o.id].update(rid=rid, len=nl + 1, et=E.Opaque('int'))
    lv = b.st.heap[rid]
    b.assume(nl >= 0, sel(lv, 0) == 0, sel(lv, nl) == m.n)
    b.assume(forall(lambda l, q: (implies(z3.And(0 <= l, l <= q, q <= nl), sel(lv, l) <= sel(lv, q)), [z3.MultiPattern(sel(lv, l), sel(lv, q))]), 2))
    b.assume(forall(lambda l: (implies(rng(0, l, nl + 1), z3.And(0 <= sel(lv, l), sel(lv, l) <= m.n)), [sel(lv, l)])))
    b.assume(forall(lambda l, i, j: (implies(z3.And(0 <= l, l < nl, sel(lv, l) <= i, i < sel(lv, l + 1), sel(m.rp, i) <= j, j < sel(m.rp, i + 1), j != sel(m.di, i)),
                                             z3.Or(sel(m.ci, j) < sel(lv, l), sel(m.ci, j) >= sel(lv, l + 1))),
                                     [z3.MultiPattern(sel(lv, l), sel(m.di, i), sel(m.ci, j))]), 3))
    return o, lv, nl


def level_cands(lc, c, rid, val, nm):
    """rows before (after) the current position of an ascending (descending) sweep over the levels"""
    m, lv = c['m'], c['lv']
    out = []
    h = lambda s, q: sel(s.heap[rid], q)
    pos = lc.ivval
    out.append((nm + '-below', lambda s: forall(lambda q: (implies(z3.And(0 <= q, q < pos(s)), h(s, q) == val(s, q)), [h(s, q)]))))
    out.append((nm + '-above', lambda s: forall(lambda q: (implies(z3.And(pos(s) < q, q < m.n), h(s, q) == val(s, q)), [h(s, q)]))))
    out.append((nm + '-levels-below', lambda s: forall(lambda q: (implies(z3.And(0 <= q, q < sel(lv, pos(s))), h(s, q) == val(s, q)), [h(s, q)]))))
    out.append((nm + '-levels-above', lambda s: forall(lambda q: (implies(z3.And(sel(lv, pos(s)) <= q, q < m.n), h(s, q) == val(s, q)), [h(s, q)]))))
    return out


def apply_task(kind, bs, stor, scaled=False):
    q, cl = lname(kind, bs, stor)
    k = 's' if bs == 1 else 'm'
    S = ROW_S if bs == 1 else ROW_M

    def setup(b):
        if kind == 'sgs':
            c = base(b, bs, stor)
            m = c['m']
            c['fac'] = m.va
        else:
            m = srmatrix(b, 'A', bs, stor, kind='raw', const=True, diag=True, tri=True, minnnz=0 if bs == 1 else 1)
            ilu = b.farr('ilu', m.nnz, bs * bs, stor)
            c = dict(m=m, bs=bs, k=k, fac=b.heap(ilu), frozen=[ilu])
            c['dinv'] = (lambda i: terms.recip(num(sel(c['fac'], sel(m.di, i)), 's'))) if bs == 1 else (lambda i: num(sel(c['fac'], sel(m.di, i)), 'm'))
        y, z, r = b.farr('ytemp', m.n, bs), b.farr('z', m.n, bs), b.farr('r', m.n, bs, const=True)
        rh = b.heap(r)
        if scaled:
            sc = b.farr('scale', m.n, bs)
            sh = b.heap(sc)
            c['frozen'].append(sc)
            c['rhs'] = lambda i: blockof(bs, [comp(num(sel(sh, i), k), q, bs) * comp(num(sel(rh, i), k), q, bs) for q in range(bs)])
            c['final'] = lambda i: blockof(bs, [comp(num(sel(c['Z'], i), k), q, bs) * comp(num(sel(sh, i), k), q, bs) for q in range(bs)])
            c['rhsc'] = lambda i, q: terms.smul(terms.elem(sel(sh, i), q), terms.elem(sel(rh, i), q))
            c['finalc'] = lambda i, q: terms.smul(terms.elem(sel(c['Z'], i), q), terms.elem(sel(sh, i), q))
        else:
            sc = b.null('double')
            c['rhs'] = lambda i: num(sel(rh, i), k)
            c['final'] = lambda i: num(sel(c['Z'], i), k)
            c['rhsc'] = lambda i, q: terms.elem(sel(rh, i), q)
            c['finalc'] = lambda i, q: terms.elem(sel(c['Z'], i), q)
        if kind == 'sgs':
            c['yeq'] = lambda i, t: c['dinv'](i) * (c['rhs'](i) - t)
            c['zeq'] = lambda i, yy, t: yy - c['dinv'](i) * t
        else:
            c['yeq'] = lambda i, t: c['rhs'](i) - t
            c['zeq'] = lambda i, yy, t: c['dinv'](i) * (yy - t)
        ghosts(b, c)
        lo, c['lv'], c['nl'] = schedule(b, m)
        f = dict(mat=m.obj, ytemp=y, levels=lo)
        if kind == 'sgs':
            f['dblocks'] = c['d']
            c['frozen'] = [c['d']]
        else:
            f.update(iluvals=ilu, scale=sc, usescaling=z3.BoolVal(scaled), threadedapply=b.bool('thr'), napplysweeps=b.int('nap'), thread_chunk_size=b.int('tcs'), applyinittype=b.int('it'))
        c.update(y=y, z=z, args=[r, z], this=b.obj(cl, **f))
        return c

    def cands(lc, c):
        m = c['m']
        out = []
        if lc.iv is None:
            return out
        for rid, tgt, nm in ((c['y'].reg, c['Y'], 'lower'), (c['z'].reg, c['Z'], 'upper')):
            if ('h', rid) in lc.mods:
                out += level_cands(lc, c, rid, lambda s, q, tgt=tgt: sel(tgt, q), nm)
        up = c['z'].reg
        if ('h', up) in lc.mods and kind == 'ilu':
            if bs == 1:
                out += rows_done(lc, 'rhs', lambda s, q: sel(s.heap[up], q) == c['rhs'](q).z(), lambda s, q: [sel(s.heap[up], q)])
                out += rows_done(lc, 'final', lambda s, q: sel(s.heap[up], q) == c['final'](q).z(), lambda s, q: [sel(s.heap[up], q)])
            else:
                out += flat_done(lc, 'rhs', up, bs, lambda s, b, cc: c['rhsc'](b, cc))
                out += flat_done(lc, 'final', up, bs, lambda s, b, cc: c['finalc'](b, cc))
        out += accum(lc, [('row', lambda s, lo, hi: S(c['fac'], m.ci, s.heap[c['y'].reg], lo, hi)), ('row', lambda s, lo, hi: S(c['fac'], m.ci, s.heap[up], lo, hi))], [Num.const(1)])
        return out

    def exits(lc, s, c):
        return exits_tri(lc, s, c, c['z'].reg) if kind == 'ilu' else []

    def post(ex, s, fl, val, c):
        ex.oblige(s, forall(lambda i: implies(rng(0, i, c['m'].n), sel(s.heap[c['z'].reg], i) == c['final'](i).z())),
                  'post: the result of the sequential forward and backward substitution')
        for p in c['frozen']:
            ex.oblige(s, s.heap[p.reg] == c['entry'].heap[p.reg], 'post: %s unchanged' % p.reg)
    return Task('%s::apply%s' % (q, ' scaled' if scaled else ''), [FG if kind == 'sgs' else FI], lambda f: f.qual == q + '::apply', setup, post, cands, exits,
                opts={'par': 'sync'}, budget=300)


def relax_task(bs, stor):
    q, cl = lname('sgs', bs, stor)
    k = 's' if bs == 1 else 'm'
    S = ROW_S if bs == 1 else ROW_M

    def setup(b):
        c = base(b, bs, stor)
        m = c['m']
        bb, x = b.farr('b', m.n, bs, const=True), b.farr('x', m.n, bs)
        bh, x0 = b.heap(bb), b.heap(x)
        its = b.int('its')
        lo, c['lv'], c['nl'] = schedule(b, m)

        def eq(i, lo_, up):
            return (c['dinv'](i) * (num(sel(bh, i), k) - S(m.va, m.ci, lo_, sel(m.rp, i), sel(m.di, i)) - S(m.va, m.ci, up, sel(m.di, i) + 1, sel(m.rp, i + 1)))).z()
        defs = [(FT, lambda t: t, lambda t, i: eq(i, FT(t), GT(t))), (GT, lambda t: t + 1, lambda t, i: eq(i, FT(t), GT(t + 1)))]
        at = lambda t: [forall(lambda i: (implies(z3.And(t >= 0, rng(0, i, m.n)), sel(f(sh(t)), i) == e(t, i)), [sel(f(sh(t)), i)])) for f, sh, e in defs]
        for f, sh, e in defs:
            b.assume(forall(lambda t, i: (implies(z3.And(t >= 0, rng(0, i, m.n)), sel(f(sh(t)), i) == e(t, i)), [sel(f(sh(t)), i)]), 2))
        b.assume(forall(lambda i: (implies(rng(0, i, m.n), sel(GT(0), i) == sel(x0, i)), [sel(GT(0), i)])))
        c['instances'] = lambda lc, s: at(lc.ivval(s)) if lc.iv is not None and lc.ivstep == 1 and not [L for L in lc.outer if L.iv is not None] else []
        c.update(x=x, K=z3.If(its > 0, its, 0), args=[bb, x])
        sp = b.obj('blasted::SolveParams<double>', rtol=b.scalar('rtol'), atol=b.scalar('atol'), dtol=b.scalar('dtol'), ctol=b.bool('ctol'), maxits=its)
        c['this'] = b.obj(cl, mat=m.obj, dblocks=c['d'], levels=lo, ytemp=b.farr('ytemp', m.n, bs), solveparams=sp)
        return c

    def cands(lc, c):
        m, X, lv = c['m'], c['x'].reg, c['lv']
        out = []
        if lc.iv is None:
            return out
        o = [L for L in lc.outer if L.iv is not None]
        T = lambda s: (o[0].ivval(s) if o else lc.ivval(s))
        h = lambda s, q: sel(s.heap[X], q)
        if not o:
            out.append(('iterate', lambda s: forall(lambda i: (implies(rng(0, i, m.n), h(s, i) == sel(GT(T(s)), i)), [h(s, i)]))))
            return out
        G, F_, G1 = (lambda s: GT(T(s))), (lambda s: FT(T(s))), (lambda s: GT(T(s) + 1))

        def split(at, below, above, incl):
            def f(s):
                p = at(s)
                return forall(lambda q: (implies(rng(0, q, m.n), h(s, q) == z3.If(q <= p if incl else q < p, sel(below(s), q), sel(above(s), q))), [h(s, q)]))
            return f
        if len(o) == 1:
            p = lambda s: sel(lv, lc.ivval(s))
        else:
            p = lc.ivval
        if ('h', X) in lc.mods:
            if lc.ivstep is None or lc.ivstep > 0:
                out.append(('forward', split(p, F_, G, False)))
            if lc.ivstep is None or lc.ivstep < 0:
                out.append(('backward', split(p, F_, G1, False)))
                out.append(('backward-in-level', split(p, F_, G1, True)))
            return out
        out += accum(lc, [('row-x', lambda s, lo, hi: S(m.va, m.ci, s.heap[X], lo, hi))], [Num.const(1)])
        return out

    def post(ex, s, fl, val, c):
        ex.oblige(s, forall(lambda i: implies(rng(0, i, c['m'].n), sel(s.heap[c['x'].reg], i) == sel(GT(c['K']), i))),
                  'post: exactly the requested number of symmetric Gauss-Seidel iterations')
        ex.oblige(s, s.heap[c['d'].reg] == c['dh'], 'post: inverse diagonal unchanged')
    return Task(q + '::apply_relax', [FG], lambda f: f.qual == q + '::apply_relax', setup, post, cands, opts={'par': 'sync', 'block': (bs, 0)}, budget=300)


INST = ((1, 0), (4, 0), (5, 0), (4, 1))
TASKS = [apply_task('sgs', b, s) for b, s in INST] + [relax_task(b, s) for b, s in INST] + \
        [apply_task('ilu', b, s, sc) for b, s in INST for sc in (False, True)]


# ------------------------------------------------------------------------------------------------- compute()
def levels_apply(ex, st, fn, this, vals, n):
    """contract of computeLevels (established by property P09): a valid schedule of the matrix it is given"""
    import builtins_cxx as bx
    C = ex.levelctx
    a = vals[0]
    ex.oblige(st, z3.BoolVal(isinstance(a, E.ObjPtr) and a.ref is not None and a.ref.id == C['m'].obj.id), 'computeLevels is given the matrix', n)
    o = bx.new_vec(ex, st, 'std::vector<int>', C['nl'] + 1, zero=None)
    st.heap[st.objs[o.id]['rid']] = C['lv']
    return o


LEVELS = Contract('computeLevels', lambda fn: fn.name == 'computeLevels', levels_apply)


def compute_task(kind, bs, stor, first):
    q, cl = lname(kind, bs, stor)
    k = 's' if bs == 1 else 'm'
    calls = []

    def fact(ex, st, fn, this, vals, n):
        """contract of the base class factorization: allocates and fills the factors of its matrix"""
        oid = this.ref.id if hasattr(this, 'ref') else this.id
        st.ghost['factored'] = st.ghost.get('factored', 0) + 1
        o = ex.new_obj(st, 'blasted::PrecInfo', {})
        ex.default_fields(st, ex.record('blasted::PrecInfo'), o)
        return o
    FACT = Contract('base factorization', lambda fn: fn.name == 'compute' and fn.qual.startswith(('AsyncILU0_SR', 'AsyncBlockILU0_SR')), fact)

    def setup(b):
        m = srmatrix(b, 'A', bs, stor, kind='raw', const=True, diag=True, tri=True, minnnz=0 if bs == 1 else 1)
        lo, lv, nl = schedule(b, m)
        c = dict(m=m, lv=lv, nl=nl)
        b.ex.levelctx = c
        if first:
            import builtins_cxx as bx
            lo = bx.new_vec(b.ex, b.st, 'std::vector<int>', 0)
        arr = (lambda nm, ln, u: b.null('double')) if first else (lambda nm, ln, u: b.farr(nm, ln, u))
        f = dict(mat=m.obj, levels=lo)
        if kind == 'sgs':
            f.update(dblocks=b.null('double') if first else b.farr('dblocks', m.n, bs * bs, stor), ytemp=arr('ytemp', m.n, bs))
        else:
            f.update(iluvals=b.null('double') if first else b.farr('ilu', m.nnz, bs * bs, stor), ytemp=arr('ytemp', m.n, bs), scale=b.null('double'), usescaling=b.bool('us'))
        c['this'] = b.obj(cl, **f)
        c['args'] = []
        return c

    def want(m, i):
        v = num(sel(m.va, sel(m.di, i)), k)
        return (terms.recip(v) if bs == 1 else terms.blkinv(v)).z()

    def cands(lc, c):
        m = c['m']
        out = []
        for r in new_regions(lc, R):
            out += rows_done(lc, 'inv(%s)' % r, lambda s, i, r=r: sel(s.heap[r], i) == want(m, i), lambda s, i, r=r: [sel(s.heap[r], i)])
        return out

    def post(ex, s, fl, val, c):
        m = c['m']
        o = s.objs[c['this'].ref.id if hasattr(c['this'], 'ref') else c['this'].id]
        L = s.objs[o['levels'].id]
        ex.oblige(s, L['len'] == c['nl'] + 1, 'post: the schedule has been computed')
        ex.oblige(s, forall(lambda i: implies(rng(0, i, c['nl'] + 1), sel(s.heap[L['rid']], i) == sel(c['lv'], i))), 'post: the levels are those of the matrix')
        if kind == 'sgs':
            p, y = o['dblocks'], o['ytemp']
            ex.oblige(s, forall(lambda i: implies(rng(0, i, m.n), cell(s, p, i) == want(m, i))), 'post: every stored block is the inverse of the diagonal block')
            ex.oblige(s, z3.BoolVal(isinstance(y, E.Ptr) and not y.null and s.alive.get(y.reg) is not False), 'post: the work vector exists')
            ex.oblige(s, s.regs[y.reg].len * s.regs[y.reg].unit >= m.n * bs, 'post: the work vector is long enough')
        else:
            ex.oblige(s, z3.BoolVal(s.ghost.get('factored') == 1), 'post: the factorization is recomputed exactly once')
    return Task('%s::compute%s' % (q, ' first' if first else ''), [FG if kind == 'sgs' else FI, 'src/solverops_jacobi.cpp'] if kind == 'sgs' else [FI], lambda f: f.qual == q + '::compute', setup, post, cands,
                opts={'par': 'sync', 'block': (bs * bs, stor)}, modular=[LEVELS] + ([FACT] if kind == 'ilu' else []))


TASKS += [compute_task(kd, b, s, f) for kd in ('sgs', 'ilu') for b, s in INST for f in (True, False)]
