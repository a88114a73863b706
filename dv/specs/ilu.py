"""Incomplete factorization on the pattern of the matrix: one sequential sweep reaches the exact factors, from any start."""
import z3
from fw import *
import engine as E
import terms

FSC, FBL = 'src/async_ilu_factor.cpp', 'src/async_blockilu_factor.cpp'

# sum over a list of position pairs of (lower factor entry) * (upper factor entry)
PAIRS = {k: terms.SumFn('pairs_' + k, [AR, AI, AI], lambda f, lo, up, j, k=k: num(sel(f, sel(lo, j)), k) * num(sel(f, sel(up, j)), k), k) for k in 'sm'}


def flat(bs, stor, r, c):
    return r * bs + c if stor else c * bs + r


def entry(bs, stor, va, sh, i, c, j):
    """matrix entry at position j of row i, column c, symmetrically scaled if sh is not None"""
    k = 's' if bs == 1 else 'm'
    v = num(sel(va, j), k)
    if sh is None:
        return v
    if bs == 1:
        return v * num(sel(sh, i), 's') * num(sel(sh, c), 's')
    e = [None] * (bs * bs)
    for a in range(bs):
        for q in range(bs):
            f = flat(bs, stor, a, q)
            e[f] = terms.component(v, f) * Num.atom(terms.elem(sel(sh, i), z3.IntVal(a)), 's') * Num.atom(terms.elem(sel(sh, c), z3.IntVal(q)), 's')
    return num(terms.mkblk(bs * bs, 1, e), 'm')


def inv(x, bs):
    return terms.recip(x) if bs == 1 else terms.blkinv(x)


def positions(b, m):
    """the position lists (property P05): every pair refers to an earlier entry of the same row and to an entry of an earlier row"""
    import builtins_cxx as bx
    tot = b.int('npairs')
    b.assume(tot >= 0)
    o = b.ex.new_obj(b.st, 'blasted::ILUPositions<int>', {})
    f = {}
    for nm, ln in (('lowerp', tot), ('upperp', tot), ('posptr', m.nnz + 1)):
        rid = b.ex.new_region(b.st, nm, I, 1, None, 's', const=True)
        v = b.ex.new_obj(b.st, 'std::vector<int>')
        b.st.objs[v.id].update(rid=rid, len=ln, et=E.Opaque('int'))
        b.st.objs[o.id][nm] = v
        f[nm] = b.st.heap[rid]
    lo, up, pp = f['lowerp'], f['upperp'], f['posptr']
    b.assume(sel(pp, 0) == 0, sel(pp, m.nnz) == tot)
    b.assume(forall(lambda j: (implies(rng(0, j, m.nnz), z3.And(0 <= sel(pp, j), sel(pp, j) <= sel(pp, j + 1), sel(pp, j + 1) <= tot)), [sel(pp, j)])))
    return o, lo, up, pp


def base(b, bs, stor, scaled):
    m = srmatrix(b, 'A', bs, stor, kind='raw', const=True, diag=True, tri=True, minnnz=0 if bs == 1 else 1)
    po, lo, up, pp = positions(b, m)
    ilu = b.farr('ilu', m.nnz, bs * bs, stor)
    sc = b.farr('scale', m.n, bs) if scaled else b.null('double')
    c = dict(m=m, bs=bs, stor=stor, k='s' if bs == 1 else 'm', po=po, lo=lo, up=up, pp=pp, ilu=ilu, sc=sc, sh=b.heap(sc) if scaled else None, g0=b.heap(ilu))
    # every pair of position j refers to an earlier entry of the same row and to an entry of an earlier row (property P05)
    c['defs'] = [lambda i, j: forall(lambda k: (implies(z3.And(rng(0, i, m.n), rng(sel(m.rp, i), j, sel(m.rp, i + 1)), rng(sel(pp, j), k, sel(pp, j + 1))),
                                                        z3.And(rng(sel(m.rp, i), sel(lo, k), j), rng(0, sel(up, k), sel(m.rp, i)))), [sel(lo, k), sel(up, k)]))]
    c['instances'] = instances(c)
    return c


def eqn(c, f, i, j, sh=None):
    """what entry j of row i must be, given the entries before it"""
    m, bs = c['m'], c['bs']
    col = sel(m.ci, j)
    rest = entry(bs, c['stor'], m.va, c['sh'], i, col, j) - PAIRS[c['k']](f, c['lo'], c['up'], sel(c['pp'], j), sel(c['pp'], j + 1))
    return rest, rest * inv(num(sel(f, sel(m.di, col)), c['k']), bs)


def ghost(b, c):
    """the exact factors: they exist and are unique because each entry refers to earlier positions only"""
    m = c['m']
    F = c['F'] = z3.Const('Fsol', AR)

    c['defs'].append(lambda i, j: (lambda up, low: implies(z3.And(rng(0, i, m.n), rng(sel(m.rp, i), j, sel(m.rp, i + 1))), sel(F, j) == z3.If(i > sel(m.ci, j), low.z(), up.z())))(*eqn(c, F, i, j)))


INVD = z3.Function('with_inverted_diagonal', AR, AR)


def inverted(c, e, i, j):
    """INVD(e): the array e with its diagonal blocks inverted"""
    m = c['m']
    return implies(z3.And(rng(0, i, m.n), rng(sel(m.rp, i), j, sel(m.rp, i + 1))), sel(INVD(e), j) == z3.If(j == sel(m.di, i), terms.minv(sel(e, j)), sel(e, j)))


def instances(c):
    """instances of the assumed definitions at the current row and position (never more than what is assumed)"""
    def f(lc, s):
        if lc.iv is None:
            return []
        ivs = [L.ivval(s) for L in lc.outer if L.iv is not None] + [lc.ivval(s)]
        return [d(i, j) for x, i in enumerate(ivs) for j in ivs[x + 1:] for d in c['defs']] + [d(i) for i in ivs for d in c.get('defs1', ())] + \
            ([forall(lambda j, i=i: (inverted(c, lc.entry.heap[c['ilu'].reg], i, j), [sel(INVD(lc.entry.heap[c['ilu'].reg]), j)])) for i in ivs[-1:]] if c['bs'] > 1 and 'inv' in c else [])
    return f


def sweep_cands(lc, c, F, nm='factor'):
    m, rid = c['m'], c['ilu'].reg
    out = []
    if ('h', rid) in lc.mods and lc.iv is not None:
        h = lambda s, q: sel(s.heap[rid], q)
        for bn, bound in (('pos', lambda s: lc.ivval(s)), ('row', lambda s: sel(m.rp, lc.ivval(s)))):
            out.append(('%s-%s' % (nm, bn), lambda s, bound=bound: forall(lambda q: (implies(z3.And(0 <= q, q < bound(s)), h(s, q) == sel(F, q)), [h(s, q)]))))
        out += all_sweeps(lc, nm, lambda s, q: h(s, q) == sel(F, q), lambda s, q: [h(s, q)], m.nnz)
        out.append(('untouched', lambda s: z3.Implies(lc.ivval(s) <= lc.iv0, s.heap[rid] == lc.entry.heap[rid])))
    out += accum(lc, [('pairs', lambda s, lo_, hi: PAIRS[c['k']](s.heap[rid], c['lo'], c['up'], lo_, hi))], [Num.const(-1)])
    return out


# ------------------------------------------------------------------------------------------------- sweeps
def sweep_task(bs, stor, scaled):
    if bs == 1:
        q = 'executeILU0Factorization<double,int,%d,%d>' % (scaled, scaled)
    else:
        q = 'async_bilu0_sweeps<double,int,%d,%d,%d>' % (bs, stor, scaled)

    def setup(b):
        c = base(b, bs, stor, scaled)
        ghost(b, c)
        ns, tcs, th = b.int('nbuildsweeps'), b.int('tcs'), b.bool('thr')
        c['ns'] = ns
        c['this'] = None
        c['args'] = [b_objptr(c['m'].obj), c['po'], ns, tcs, th, c['sc'], c['sc'], c['ilu']] if bs == 1 else [b_objptr(c['m'].obj), c['po'], c['sc'], ns, tcs, th, c['ilu']]
        return c

    def cands(lc, c):
        return sweep_cands(lc, c, c['F'])

    def post(ex, s, fl, val, c):
        m, h = c['m'], s.heap[c['ilu'].reg]
        ex.oblige(s, forall(lambda j: implies(z3.And(c['ns'] >= 1, rng(0, j, m.nnz)), sel(h, j) == sel(c['F'], j))), 'post: after at least one sweep the factors are exact')
        ex.oblige(s, z3.Implies(c['ns'] <= 0, h == c['g0']), 'post: without sweeps nothing changes')
        if scaled:
            ex.oblige(s, s.heap[c['sc'].reg] == c['sh'], 'post: scaling factors unchanged')
    return Task(q, [FSC if bs == 1 else FBL], lambda f: f.qual == q, setup, post, cands, opts={'unroll': 6, 'block': (bs, stor)}, budget=300)


# ------------------------------------------------------------------------------------------------- residual
_res = {}


def residual(bs, stor, scaled):
    """(sum of the magnitudes of the mismatches over positions of row i, the same over rows)"""
    key = (bs, stor, scaled)
    if key not in _res:
        k = 's' if bs == 1 else 'm'
        nm = '%d_%d_%d' % key

        def mismatch(f, va, sh, ci, di, lo, up, pp, i, j):
            col = sel(ci, j)
            a = entry(bs, stor, va, sh if scaled else None, i, col, j) - PAIRS[k](f, lo, up, sel(pp, j), sel(pp, j + 1))
            low, upp = a - num(sel(f, j), k) * num(sel(f, sel(di, col)), k), a - num(sel(f, j), k)
            mag = lambda x: sum((terms.sabs(terms.component(x, r).z()) for r in range(bs * bs)), z3.RealVal(0))
            return Num.atom(z3.If(i > col, mag(low), mag(upp)), 's')
        ROW = terms.SumFn('resrow_' + nm, [AR, AR, AR, AI, AI, AI, AI, AI, I], mismatch, 's')
        TOT = terms.SumFn('res_' + nm, [AR, AR, AR, AI, AI, AI, AI, AI, AI], lambda f, va, sh, ci, di, lo, up, pp, rp, i: ROW(f, va, sh, ci, di, lo, up, pp, i, sel(rp, i), sel(rp, i + 1)), 's')
        _res[key] = ROW, TOT
    return _res[key]


def resargs(c, f):
    m = c['m']
    return [f, m.va, c['sh'] if c['sh'] is not None else m.va, m.ci, m.di, c['lo'], c['up'], c['pp']]


def res_cands(lc, c, f):
    ROW, TOT = residual(c['bs'], c['stor'], c['sh'] is not None)
    out = accum(lc, [('total', lambda s, lo_, hi: TOT(*(resargs(c, f(s)) + [c['m'].rp, lo_, hi])))], (1,))
    for L in lc.outer:
        if L.iv is not None:
            out += accum(lc, [('row', lambda s, lo_, hi, L=L: ROW(*(resargs(c, f(s)) + [L.ivval(s), lo_, hi])))], (1,))
    return out


def res_task(bs, stor, scaled):
    q = 'scalar_ilu0_nonlinear_res<double,int,%d,%d>' % (scaled, scaled) if bs == 1 else 'block_ilu0_nonlinear_res<double,int,%d,%d,%d>' % (bs, stor, scaled)

    def setup(b):
        c = base(b, bs, stor, scaled)
        tcs = b.int('tcs')
        c['this'] = None
        o = b_objptr(c['m'].obj)
        c['args'] = [o, c['po'], tcs, c['sc'], c['sc'], c['ilu']] if bs == 1 else [o, c['po'], c['sc'], c['ilu'], tcs]
        return c

    def cands(lc, c):
        out = res_cands(lc, c, lambda s: c['g0'])
        out += accum(lc, [('pairs', lambda s, lo_, hi: PAIRS[c['k']](c['g0'], c['lo'], c['up'], lo_, hi))], [Num.const(-1)])
        return out

    def post(ex, s, fl, val, c):
        TOT = residual(bs, stor, bool(scaled))[1]
        ex.oblige(s, ex.as_num(val).z() == TOT.z(*(resargs(c, c['g0']) + [c['m'].rp, z3.IntVal(0), c['m'].n])), 'post: the sum of the mismatches over all stored positions')
        ex.oblige(s, s.heap[c['ilu'].reg] == c['g0'], 'post: factors unchanged')
    return Task(q, [FSC if bs == 1 else FBL], lambda f: f.qual == q, setup, post, cands, opts={'par': 'sync', 'unroll': 6, 'uabs': True, 'block': (bs, stor)}, budget=300)


# ------------------------------------------------------------------------------------------------- initial guesses
def ghost_init(b, c):
    """per-position ghost arrays: the (scaled) matrix, and the guess built from its triangles"""
    m, bs, k = c['m'], c['bs'], c['k']
    AE = c['AE'] = z3.Const('Aent', AR)
    SG = c['SG'] = z3.Const('Sgs', AR)
    if c['sh'] is None:
        b.assume(forall(lambda j: (sel(AE, j) == sel(m.va, j), [sel(AE, j)])))
    inrow = lambda i, j: z3.And(rng(0, i, m.n), rng(sel(m.rp, i), j, sel(m.rp, i + 1)))
    ent = lambda i, j: implies(inrow(i, j), sel(AE, j) == entry(bs, c['stor'], m.va, c['sh'], i, sel(m.ci, j), j).z())
    sg = lambda i, j: implies(inrow(i, j), sel(SG, j) == z3.If(i > sel(m.ci, j), (num(sel(AE, j), k) * inv(num(sel(AE, sel(m.di, sel(m.ci, j))), k), bs)).z(), sel(AE, j)))
    dg = lambda i: z3.simplify(sel(m.di, i))
    # the diagonal entry of row i is in column i
    entd = lambda i: implies(rng(0, i, m.n), sel(AE, dg(i)) == entry(bs, c['stor'], m.va, c['sh'], i, i, dg(i)).z())
    c['defs'] += [ent, sg, lambda i, j: entd(sel(m.ci, j))]
    c['defs1'] = [entd, lambda i: forall(lambda j: (implies(z3.And(inrow(i, j), i <= sel(m.ci, j)), sel(SG, j) == sel(AE, j)), [sel(SG, j)]))]


def init_cands(lc, c):
    m, rid, bs = c['m'], c['ilu'].reg, c['bs']
    out = []
    if lc.iv is None:
        return out
    own = lc.ivval
    h = lambda s, q: sel(s.heap[rid], q)
    outer = [L for L in lc.outer if L.iv is not None]
    tgts = [('matrix', lambda q: sel(c['AE'], q)), ('triangles', lambda q: sel(c['SG'], q)), ('zero', lambda q: z3.RealVal(0))]
    if ('h', rid) in lc.mods:
        for nm, t in tgts:
            fa = lambda s, lo, hi, t=t: forall(lambda q: (implies(rng(lo, q, hi), h(s, q) == t(q)), [h(s, q)]))
            out.append((nm + '-below', lambda s, fa=fa: fa(s, z3.IntVal(0), own(s))))
            out.append((nm + '-here', lambda s, fa=fa: fa(s, lc.iv0, own(s))))
            out.append((nm + '-rows-below', lambda s, fa=fa: fa(s, z3.IntVal(0), sel(m.rp, own(s)))))
            out.append((nm + '-rows-above', lambda s, fa=fa: fa(s, sel(m.rp, own(s)), m.nnz)))
            for L in outer:
                out.append((nm + '-rest-of-row', lambda s, fa=fa, L=L: fa(s, own(s), sel(m.rp, L.ivval(s) + 1))))
                out.append((nm + '-rest', lambda s, fa=fa, L=L: fa(s, own(s), m.nnz)))
        if bs > 1:
            out += flat_done(lc, 'zero', rid, bs * bs, lambda s, b, cc: z3.RealVal(0))
            out += flat_done(lc, 'copy', rid, bs * bs, lambda s, b, cc: terms.elem(sel(m.va, b), cc))
    for r in new_regions(lc, R):
        if r != rid and bs > 1 and lc.entry.regs[r].unit == bs * bs:
            out += rows_done(lc, 'invdiag(%s)' % r, lambda s, i, r=r: sel(s.heap[r], i) == terms.minv(sel(c['AE'], sel(m.di, i))), lambda s, i, r=r: [sel(s.heap[r], i)])
    return out


def init_exits(lc, s, c):
    bs = c['bs']
    if bs == 1 or lc.outer or ('h', c['ilu'].reg) not in lc.mods:
        return []
    out = []
    for w in (lambda b: Num.zero('m'), lambda b: num(sel(c['m'].va, b), 'm')):
        g, f = flat_exit(c['ilu'].reg, bs * bs, c['m'].nnz, lambda s, b, w=w: w(b))
        out.append((g(s), f(s)))
    return out


def init_task(bs, stor, scaled, kind):
    q = 'fact_init_%s<double,int%s>' % (kind, '' if bs == 1 else ',%d,%d' % (bs, stor))

    def setup(b):
        c = base(b, bs, stor, scaled)
        ghost_init(b, c)
        c['this'] = None
        c['args'] = [b_objptr(c['m'].obj), c['sc'], c['ilu']]
        return c

    def post(ex, s, fl, val, c):
        m, h = c['m'], s.heap[c['ilu'].reg]
        T = c['SG'] if kind == 'sgs' else c['AE']
        ex.oblige(s, forall(lambda j: implies(rng(0, j, m.nnz), sel(h, j) == sel(T, j))), 'post: the initial guess is the documented one')
    return Task(q + (' scaled' if scaled else ''), [FSC if bs == 1 else FBL], lambda f: f.qual == q, setup, post, init_cands, init_exits if bs > 1 else None,
                opts={'par': 'sync', 'unroll': 6, 'block': (bs * bs, stor)}, budget=300)


# ------------------------------------------------------------------------------------------------- the whole factorization
DOMV = z3.Function('dominance', I, AR, R)


def same(ex, st, n, what, *pairs):
    """the callee is handed the objects the caller was given"""
    ok = True
    for got, want in pairs:
        if isinstance(want, E.Ptr):
            ok = ok and isinstance(got, E.Ptr) and got.reg == want.reg
        else:
            g = got.ref if isinstance(got, E.ObjPtr) else got
            w = want.ref if isinstance(want, E.ObjPtr) else want
            ok = ok and isinstance(g, E.ObjRef) and g.id == w.id
    ex.oblige(st, z3.BoolVal(bool(ok)), what, n)
    for got, want in pairs:
        if ok and isinstance(want, E.Ptr) and not want.null:
            ex.oblige(st, got.off == 0, what, n)


def tmpl(fn):
    return [x.strip() for x in fn.qual[fn.qual.index('<') + 1:fn.qual.rindex('>')].split(',')]


def contracts(C):
    """contracts of the pieces, each established by a task of its own; C: box holding the context of the caller"""
    def scaled(ex, st, n):
        c = C[0]
        if c['sh'] is not None:
            ex.oblige(st, st.heap[c['sc'].reg] == c['sh'], 'the scaling vector has been computed', n)

    def scale(ex, st, fn, this, vals, n):
        c = C[0]
        m, bs = c['m'], c['bs']
        same(ex, st, n, 'getScalingVector is given the matrix and the scaling vector', (vals[0], m.obj), (vals[1], c['sc']))
        ex.oblige(st, z3.BoolVal(tmpl(fn)[2] == str(bs)), 'getScalingVector of this block size', n)
        h = c['sh']
        st.heap[c['sc'].reg] = h
        ex.note_mod(('h', c['sc'].reg))
        for q in range(bs):
            at = (lambda i, q=q: sel(h, i)) if bs == 1 else (lambda i, q=q: terms.elem(sel(h, i), z3.IntVal(q)))
            d = lambda i, q=q: ent0(c, i, q)
            st.assume(forall(lambda i: (implies(rng(0, i, m.n), at(i) == terms.recip(num(terms.ssqrt(d(i)), 's')).z()), [sel(h, i)])))

    def sweeps(ex, st, fn, this, vals, n):
        c = C[0]
        m = c['m']
        if c['bs'] == 1:
            same(ex, st, n, 'the sweeps work on the matrix, its position lists and the factors', (vals[0], m.obj), (vals[1], c['po']), (vals[7], c['ilu']))
            ns, scs = vals[2], (vals[5], vals[6])
            flags = tmpl(fn)[2:4]
        else:
            same(ex, st, n, 'the sweeps work on the matrix, its position lists and the factors', (vals[0], m.obj), (vals[1], c['po']), (vals[6], c['ilu']))
            ns, scs = vals[3], (vals[2],)
            flags = tmpl(fn)[4:5]
            ex.oblige(st, z3.BoolVal(tmpl(fn)[2:4] == [str(c['bs']), str(c['stor'])]), 'the sweeps use the block layout of the matrix', n)
        sc = c['sh'] is not None
        ex.oblige(st, z3.BoolVal(all(x in (('1', 'true') if sc else ('0', 'false')) for x in flags)), 'the sweeps use scaling exactly when requested', n)
        if sc:
            same(ex, st, n, 'the sweeps use the scaling vector', *[(x, c['sc']) for x in scs])
        ex.oblige(st, ex.as_int(ns) == c['ns'], 'the requested number of sweeps', n)
        old = st.heap[c['ilu'].reg]
        h = fresh('ilu', AR)
        st.heap[c['ilu'].reg] = h
        ex.note_mod(('h', c['ilu'].reg))
        scaled(ex, st, n)
        F = c['F']
        st.assume(forall(lambda j: (implies(z3.And(c['ns'] >= 1, rng(0, j, m.nnz)), sel(h, j) == sel(F, j)), [sel(h, j)])))
        st.assume(z3.Implies(c['ns'] <= 0, h == old))
        st.ghost['sweeps'] = st.ghost.get('sweeps', 0) + 1
        st.ghost['factors'] = h

    def resid(ex, st, fn, this, vals, n):
        c = C[0]
        m, bs = c['m'], c['bs']
        sc = c['sh'] is not None
        if bs == 1:
            same(ex, st, n, 'the residual is taken of the factors', (vals[0], m.obj), (vals[1], c['po']), (vals[5], c['ilu']))
            flags, scs = tmpl(fn)[2:4], (vals[3], vals[4])
        else:
            same(ex, st, n, 'the residual is taken of the factors', (vals[0], m.obj), (vals[1], c['po']), (vals[3], c['ilu']))
            flags, scs = tmpl(fn)[4:5], (vals[2],)
            ex.oblige(st, z3.BoolVal(tmpl(fn)[2:4] == [str(bs), str(c['stor'])]), 'the residual uses the block layout of the matrix', n)
        ex.oblige(st, z3.BoolVal(all(x in (('1', 'true') if sc else ('0', 'false')) for x in flags)), 'the residual uses scaling exactly when requested', n)
        if sc:
            same(ex, st, n, 'the residual uses the scaling vector', *[(x, c['sc']) for x in scs])
        TOT = residual(bs, c['stor'], sc)[1]
        scaled(ex, st, n)
        h = st.heap[c['ilu'].reg]
        st.ghost['res'] = st.ghost.get('res', ()) + (h,)
        return TOT(*(resargs(c, h) + [m.rp, z3.IntVal(0), m.n]))

    def guess(ex, st, fn, this, vals, n):
        c = C[0]
        m = c['m']
        same(ex, st, n, 'the initial guess is made of the matrix', (vals[0], m.obj), (vals[2], c['ilu']))
        sc = isinstance(vals[1], E.Ptr) and not vals[1].null
        ex.oblige(st, z3.BoolVal(sc == (c['sh'] is not None)), 'the initial guess is scaled exactly when requested', n)
        if sc:
            same(ex, st, n, 'the initial guess uses the scaling vector', (vals[1], c['sc']))
        scaled(ex, st, n)
        T = c['SG'] if 'sgs' in fn.name else c['AE']
        h = fresh('ilu', AR)
        st.heap[c['ilu'].reg] = h
        ex.note_mod(('h', c['ilu'].reg))
        st.assume(forall(lambda j: (implies(rng(0, j, m.nnz), sel(h, j) == sel(T, j)), [sel(h, j)])))

    def dom(ex, st, fn, this, vals, n):
        c = C[0]
        o = vals[0]
        o = st.objs[(o.ref if isinstance(o, E.ObjPtr) else o).id]
        m = c['m']
        for f, p in (('browptr', m.pbrow), ('bcolind', m.pcol), ('vals', c['ilu']), ('diagind', m.pdiag), ('browendptr', m.pend)):
            d = st.objs[o[f].id]['data']
            ex.oblige(st, z3.BoolVal(isinstance(d, E.Ptr) and d.reg == p.reg), 'diagonal dominance of the factors: ' + f, n)
            ex.oblige(st, d.off == p.off, 'diagonal dominance of the factors: ' + f, n)
        ex.oblige(st, o['nbrows'] == m.n, 'diagonal dominance of the factors: rows', n)
        ex.oblige(st, z3.BoolVal(tmpl(fn)[2] == str(c['bs']) and (c['bs'] == 1 or tmpl(fn)[3] == str(c['stor']))), 'diagonal dominance in the block layout of the matrix', n)
        rid = ex.new_region(st, 'dominance', R, 1, z3.IntVal(4), 's')
        h = st.heap[c['ilu'].reg]
        st.ghost['dom'] = h
        for k in range(4):
            st.heap[rid] = z3.Store(st.heap[rid], k, DOMV(z3.IntVal(k), h))
        ex.arrays.add(rid)
        return E.Ptr(rid, z3.IntVal(0), 1, 'double')

    return [Contract('getScalingVector', lambda fn: fn.name == 'getScalingVector', scale),
            Contract('sweeps', lambda fn: fn.name in ('executeILU0Factorization', 'async_bilu0_sweeps'), sweeps),
            Contract('factorization residual', lambda fn: fn.name in ('scalar_ilu0_nonlinear_res', 'block_ilu0_nonlinear_res'), resid),
            Contract('initial guess', lambda fn: fn.name in ('fact_init_sgs', 'fact_init_original'), guess),
            Contract('diagonal_dominance', lambda fn: fn.name == 'diagonal_dominance', dom)]


def ent0(c, i, q):
    """q-th diagonal scalar of the diagonal block of row i"""
    d = sel(c['m'].va, sel(c['m'].di, i))
    return d if c['bs'] == 1 else terms.elem(d, z3.IntVal(q * c['bs'] + q))


def fact_task(bs, stor, scaled, init, noscale=False):
    if noscale:
        q = 'scalar_ilu0_factorize_noscale<double,int>'
    else:
        q = 'scalar_ilu0_factorize<double,int>' if bs == 1 else 'block_ilu0_factorize<double,int,%d,%d>' % (bs, stor)
    inits = dict(zero='INIT_F_ZERO', original='INIT_F_ORIGINAL', sgs='INIT_F_SGS', none='INIT_F_NONE')
    C = []

    def setup(b):
        c = base(b, bs, stor, scaled)
        C[:] = [c]
        ns, tcs, th, ci = b.int('nbuildsweeps'), b.int('tcs'), b.bool('thr'), b.bool('info')
        c.update(ns=ns, ci_=ci, inv=True)
        if scaled:
            c['sh'] = z3.Const('scaling', AR)
        c['F'] = z3.Const('Fsol', AR)
        ghost_init(b, c)
        iv = z3.IntVal(b.ex.enumbyname(inits[init]))
        o = b_objptr(c['m'].obj)
        c['this'] = None
        c['args'] = [o, c['po'], ns, tcs, th, iv] + ([] if noscale else [ci]) + [c['ilu']] + ([] if noscale else [c['sc']])
        return c

    def target(c, s):
        """the requested initial guess"""
        return {'none': c['g0'], 'zero': z3.K(I, z3.RealVal(0) if bs == 1 else Num.zero('m').z()), 'original': c['AE'], 'sgs': c['SG']}[init]

    def cands(lc, c):
        out = init_cands(lc, c)
        m, rid = c['m'], c['ilu'].reg
        if bs > 1 and lc.iv is not None and ('h', rid) in lc.mods:
            e = lc.entry.heap[rid]
            h = lambda s, q: sel(s.heap[rid], q)
            out.append(('inverted-below', lambda s: forall(lambda q: (implies(rng(0, q, sel(m.rp, lc.ivval(s))), h(s, q) == sel(INVD(e), q)), [h(s, q)]))))
            out.append(('inverted-rest', lambda s: forall(lambda q: (implies(rng(sel(m.rp, lc.ivval(s)), q, m.nnz), h(s, q) == sel(e, q)), [h(s, q)]))))
        return out

    def post(ex, s, fl, val, c):
        m, h, ns = c['m'], s.heap[c['ilu'].reg], c['ns']
        sh = s.heap[c['sc'].reg] if c['sh'] is not None else c['m'].va
        F, T = c['F'], target(c, s)
        ex.oblige(s, z3.BoolVal(s.ghost.get('sweeps') == 1), 'post: the factors are computed')
        want = lambda j: z3.If(ns >= 1, sel(F, j), sel(T, j))
        if bs == 1:
            ex.oblige(s, forall(lambda j: implies(rng(0, j, m.nnz), sel(h, j) == want(j))), 'post: exact factors after any sweep, the requested guess without')
        else:
            e = s.ghost['factors']
            ex.oblige(s, forall(lambda i: implies(z3.And(rng(0, i, m.n), inverted(c, e, i, sel(m.di, i))), sel(h, sel(m.di, i)) == terms.minv(want(sel(m.di, i))))), 'post: diagonal blocks are stored inverted')
            ex.oblige(s, forall(lambda i, j: implies(z3.And(rng(0, i, m.n), rng(sel(m.rp, i), j, sel(m.rp, i + 1)), j != sel(m.di, i), inverted(c, e, i, j)), sel(h, j) == want(j)), 2),
                      'post: exact factors after any sweep, the requested guess without')
        if scaled:
            for q in range(bs):
                f = lambda i, q=q: (sel(sh, i) if bs == 1 else terms.elem(sel(sh, i), z3.IntVal(q))) == terms.recip(num(terms.ssqrt(ent0(c, i, q)), 's')).z()
                ex.oblige(s, forall(lambda i: implies(rng(0, i, m.n), f(i))), 'post: scaled by the reciprocal square roots of the diagonal')
        if not noscale:
            res = s.ghost.get('res', ())
            o = s.objs[(val.ref if isinstance(val, E.ObjPtr) else val).id]
            fi = lambda k: cell(s, o['f_info'], k)
            TOT = residual(bs, stor, bool(scaled))[1]
            tot = lambda hh: TOT.z(hh, m.va, sh, m.ci, m.di, c['lo'], c['up'], c['pp'], m.rp, z3.IntVal(0), m.n)
            if not res:
                ex.oblige(s, z3.Not(c['ci_']), 'post: the residuals are reported when asked for')
            else:
                ex.oblige(s, z3.Implies(c['ci_'], z3.And(fi(1) == tot(res[0]), fi(0) == tot(res[-1]))), 'post: the reported residuals')
                ex.oblige(s, z3.Implies(c['ci_'], forall(lambda j: implies(rng(0, j, m.nnz), z3.And(sel(res[0], j) == sel(T, j), sel(res[-1], j) == want(j))))),
                          'post: one residual is that of the initial guess, the other that of the factors')
                hd = s.ghost.get('dom')
                if hd is None:
                    ex.oblige(s, False, 'post: the diagonal dominance is reported')
                else:
                    for k, w in ((5, 0), (4, 1), (3, 2), (2, 3)):
                        ex.oblige(s, z3.Implies(c['ci_'], fi(k) == DOMV(z3.IntVal(w), hd)), 'post: the reported diagonal dominance')
                    ex.oblige(s, forall(lambda j: implies(z3.And(c['ci_'], rng(0, j, m.nnz)), sel(hd, j) == want(j))), 'post: the diagonal dominance is that of the factors')
    return Task('%s %s%s' % (q, init, ' scaled' if scaled else ''), [FSC if bs == 1 else FBL] + ([] if noscale else ['src/rawsrmatrixutils.cpp']), lambda f: f.qual == q, setup, post, cands, init_exits if bs > 1 else None,
                opts={'par': 'sync', 'unroll': 6, 'block': (bs * bs, stor)}, budget=300, modular=contracts(C))


# ------------------------------------------------------------------------------------------------- scaling vector, class interface
def scaling_task(bs):
    q = 'getScalingVector<double,int,%d>' % bs

    def setup(b):
        m = srmatrix(b, 'A', bs, 0, kind='raw', const=True, diag=True, minnnz=0 if bs == 1 else 1)
        sc = b.farr('scale', m.n, bs)
        return dict(m=m, bs=bs, sc=sc, this=None, args=[b_objptr(m.obj), sc])

    def want(c, i, q):
        d = ent0(c, i, 0) if bs == 1 else terms.elem(sel(c['m'].va, sel(c['m'].di, i)), q * bs + q)
        return terms.recip(num(terms.ssqrt(d), 's')).z()

    def wantb(c, i):
        return blockof(bs, [num(want(c, i, q), 's') for q in range(bs)]).z()

    def cands(lc, c):
        rid = c['sc'].reg
        if lc.iv is None or ('h', rid) not in lc.mods:
            return []
        if bs == 1:
            return rows_done(lc, 'scale', lambda s, i: sel(s.heap[rid], i) == want(c, i, 0), lambda s, i: [sel(s.heap[rid], i)])
        return rows_done(lc, 'scale', lambda s, i: sel(s.heap[rid], i) == wantb(c, i), lambda s, i: [sel(s.heap[rid], i)])

    def post(ex, s, fl, val, c):
        h = s.heap[c['sc'].reg]
        ex.oblige(s, forall(lambda i: implies(rng(0, i, c['m'].n), sel(h, i) == (want(c, i, 0) if bs == 1 else wantb(c, i)))),
                  'post: reciprocal square root of every diagonal scalar')
    return Task(q, ['src/rawsrmatrixutils.cpp'], lambda f: f.qual == q, setup, post, cands, opts={'par': 'sync', 'unroll': bs + 1, 'block': (bs, 0)}, budget=300)


def class_task(bs, stor, first, scaled):
    q = 'AsyncILU0_SRPreconditioner<double,int>' if bs == 1 else 'AsyncBlockILU0_SRPreconditioner<double,int,%d,%d>' % (bs, stor)
    cl = 'blasted::AsyncILU0_SRPreconditioner<double, int>' if bs == 1 else 'blasted::AsyncBlockILU0_SRPreconditioner<double, int, %d, (blasted::StorageOptions)%d>' % (bs, stor)
    C = []

    def posns(ex, st, fn, this, vals, n):
        """contract of compute_ILU_positions_CSR_CSR (property P05): the position lists of the matrix it is given"""
        c = C[0]
        same(ex, st, n, 'positions are computed for the matrix', (vals[0], c['m'].obj))
        o = c['pl']
        st.ghost['pos'] = st.ghost.get('pos', 0) + 1
        return o

    def fact(ex, st, fn, this, vals, n):
        """contract of the factorization (tasks *_ilu0_factorize)"""
        c = C[0]
        m = c['m']
        o = st.objs[(c['this'].ref if hasattr(c['this'], 'ref') else c['this']).id]
        same(ex, st, n, 'factorization of the stored matrix', (vals[0], m.obj))
        pl = st.objs[(vals[1].ref if isinstance(vals[1], E.ObjPtr) else vals[1]).id]
        for f in ('lowerp', 'upperp', 'posptr'):
            w, g = st.objs[st.objs[c['pl'].id][f].id], st.objs[pl[f].id]
            w0 = st.heap[w['rid']]
            ex.oblige(st, g['len'] == w['len'], 'factorization with the position lists of the matrix', n)
            ex.oblige(st, forall(lambda j: implies(rng(0, j, w['len']), sel(st.heap[g['rid']], j) == sel(w0, j))), 'factorization with the position lists of the matrix', n)
        for k, f in ((2, 'nbuildsweeps'), (3, 'thread_chunk_size'), (5, 'factinittype')):
            ex.oblige(st, ex.as_int(vals[k]) == c['opt'][f], 'factorization with the requested ' + f, n)
        ex.oblige(st, vals[4] == c['opt']['threadedfactor'], 'factorization with the requested threading', n)
        ex.oblige(st, vals[6] == c['opt']['info'], 'factorization with the requested diagnostics', n)
        ok = lambda p: isinstance(p, E.Ptr) and not p.null and st.alive.get(p.reg) is not False
        ex.oblige(st, z3.BoolVal(ok(vals[7]) and ok(o['iluvals']) and vals[7].reg == o['iluvals'].reg), 'factorization into the storage of the factors', n)
        ex.oblige(st, st.regs[vals[7].reg].len * st.regs[vals[7].reg].unit >= m.nnz * bs * bs, 'storage of the factors is long enough', n)
        if not first:
            ex.oblige(st, z3.BoolVal(vals[7].reg == c['ilu'].reg), 'the storage of the factors is kept', n)
        if scaled:
            ex.oblige(st, z3.BoolVal(ok(vals[8]) and ok(o['scale']) and vals[8].reg == o['scale'].reg), 'factorization with scaling when requested', n)
            if ok(vals[8]):
                ex.oblige(st, st.regs[vals[8].reg].len * st.regs[vals[8].reg].unit >= m.n * bs, 'the scaling vector is long enough', n)
        else:
            ex.oblige(st, z3.BoolVal(isinstance(vals[8], E.Ptr) and bool(vals[8].null)), 'factorization without scaling when not requested', n)
        st.ghost['given'] = st.heap[vals[7].reg]
        st.ghost['factored'] = st.ghost.get('factored', 0) + 1
        h = fresh('factors', AR)
        st.heap[vals[7].reg] = h
        ex.note_mod(('h', vals[7].reg))
        r = ex.new_obj(st, 'blasted::PrecInfo', {})
        ex.default_fields(st, ex.record('blasted::PrecInfo'), r)
        return r
    MOD = [Contract('compute_ILU_positions_CSR_CSR', lambda fn: fn.name == 'compute_ILU_positions_CSR_CSR', posns),
           Contract('factorization', lambda fn: fn.name in ('scalar_ilu0_factorize', 'block_ilu0_factorize'), fact)]

    def setup(b):
        import builtins_cxx as bx
        m = srmatrix(b, 'A', bs, stor, kind='raw', const=True, diag=True, tri=True, minnnz=0 if bs == 1 else 1)
        c = dict(m=m, bs=bs, stor=stor)
        C[:] = [c]
        c['pl'] = positions(b, m)[0]
        if first:
            pf = b.ex.new_obj(b.st, 'blasted::ILUPositions<int>', {})
            for f in ('lowerp', 'upperp', 'posptr'):
                b.st.objs[pf.id][f] = bx.new_vec(b.ex, b.st, 'std::vector<int>', 0)
        else:
            pf = c['pl']
        arr = (lambda nm, ln, u, *a: b.null('double')) if first else (lambda nm, ln, u, *a: b.farr(nm, ln, u, *a))
        c['ilu'] = arr('ilu', m.nnz, bs * bs, stor)
        sc = b.farr('scale', m.n, bs) if scaled and not first else b.null('double')
        c['opt'] = dict(nbuildsweeps=b.int('ns'), thread_chunk_size=b.int('tcs'), factinittype=b.int('fi'), threadedfactor=b.bool('tf'), info=b.bool('info'))
        f = dict(mat=m.obj, plist=pf, iluvals=c['ilu'], ytemp=arr('ytemp', m.n, bs), scale=sc, usescaling=z3.BoolVal(scaled))
        for k, v in c['opt'].items():
            f[k if k != 'info' else ('compute_precinfo' if bs == 1 else 'compute_remainder')] = v
        c['this'] = b.obj(cl, **f)
        c['args'] = []
        return c

    def cands(lc, c):
        m = c['m']
        out = []
        for r in new_regions(lc, R):
            t = lambda i: sel(m.va, i)
            out += rows_done(lc, 'copy(%s)' % r, lambda s, i, r=r: sel(s.heap[r], i) == t(i), lambda s, i, r=r: [sel(s.heap[r], i)])
            if bs > 1:
                out += flat_done(lc, 'copy(%s)' % r, r, bs * bs, lambda s, b, cc: terms.elem(sel(m.va, b), cc))
                out += flat_done(lc, 'zero(%s)' % r, r, bs, lambda s, b, cc: z3.RealVal(0))
        return out

    def exits(lc, s, c):
        out = []
        if bs > 1:
            for r in new_regions(lc, R):
                if lc.entry.regs[r].unit == bs * bs:
                    g, f = flat_exit(r, bs * bs, c['m'].nnz, lambda s, b: num(sel(c['m'].va, b), 'm'))
                    out.append((g(s), f(s)))
        return out

    def post(ex, s, fl, val, c):
        m = c['m']
        ex.oblige(s, z3.BoolVal(s.ghost.get('factored') == 1), 'post: the factorization is computed exactly once')
        ex.oblige(s, z3.BoolVal(s.ghost.get('pos', 0) == (1 if first else 0)), 'post: the position lists are computed once')
        o = s.objs[(c['this'].ref if hasattr(c['this'], 'ref') else c['this']).id]
        y = o['ytemp']
        ex.oblige(s, z3.BoolVal(isinstance(y, E.Ptr) and not y.null and s.alive.get(y.reg) is not False), 'post: the work vector exists')
        ex.oblige(s, s.regs[y.reg].len * s.regs[y.reg].unit >= m.n * bs, 'post: the work vector is long enough')
        if first and 'given' in s.ghost:
            ex.oblige(s, forall(lambda j: implies(rng(0, j, m.nnz), sel(s.ghost['given'], j) == sel(m.va, j))), 'post: without a requested initial guess the factors start from the matrix')
    return Task('%s::compute%s%s' % (q, ' first' if first else '', ' scaled' if scaled else ''), ['src/solverops_ilu0.cpp', 'src/ilu_pattern.cpp'], lambda f: f.qual == q + '::compute', setup, post, cands, exits,
                opts={'par': 'sync', 'block': (bs * bs, stor)}, modular=MOD, budget=300)


INST = ((1, 0), (4, 0), (5, 0), (4, 1))
KINDS = ('none', 'zero', 'original', 'sgs')


def tasks(bs, s):
    out = [f(bs, s, sc) for f in (sweep_task, res_task) for sc in (0, 1)]
    out += [init_task(bs, s, sc, k) for sc in (0, 1) for k in ('sgs', 'original') if k == 'sgs' or bs == 1]
    out += [fact_task(bs, s, sc, k) for sc in (0, 1) for k in KINDS]
    if bs == 1:
        out += [fact_task(1, 0, 0, k, True) for k in KINDS]
    if not s:
        out.append(scaling_task(bs))
    out += [class_task(bs, s, f, sc) for f in (True, False) for sc in (False, True)]
    for t in out:
        t.bs = bs
    return out


TASKS = [t for b, s in INST for t in tasks(b, s)]
