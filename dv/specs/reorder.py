"""Reordering and scaling of vectors and (block-)row matrices."""
import z3
from fw import *
import engine as E
import terms
import builtins_cxx

F = 'src/reorderingscaling.cpp'
FH = 'src/helper_algorithms.cpp'
CLS = lambda bs: 'blasted::Reordering<double,int,%d>' % bs
SCL = lambda bs: 'blasted::ReorderingScaling<double,int,%d>' % bs
BS = (1, 4, 7)


def el(bs):
    return (lambda a, j, q: sel(a, j)) if bs == 1 else (lambda a, j, q: terms.elem(sel(a, j), z3.IntVal(q) if isinstance(q, int) else q))


def perm(b, P, Q, n):
    """P and Q are permutations of 0..n-1, inverse to each other"""
    for x, y in ((P, Q), (Q, P)):
        b.assume(forall(lambda i: (implies(rng(0, i, n), z3.And(rng(0, sel(x, i), n), sel(y, sel(x, i)) == i)), [sel(x, i)])))


def ivec(b, name, ln):
    o = builtins_cxx.new_vec(b.ex, b.st, 'std::vector<int>', ln, None)
    return o, b.st.heap[b.st.objs[o.id]['rid']]


def fvec(b, name, ln):
    o = builtins_cxx.new_vec(b.ex, b.st, 'std::vector<double>', ln, None)
    return o, b.st.heap[b.st.objs[o.id]['rid']]


def reorderer(b, bs, n, cls, have=(None, None), scales=False):
    """an object whose orderings are absent or mutually inverse permutations of n rows / columns"""
    this = b.ex.new_obj(b.st, cls, {})
    c = {}
    for k, (x, y) in enumerate((('rp', 'irp'), ('cp', 'icp'))):
        hv = have[k] if have[k] is not None else b.bool('have_' + x)
        hv = z3.BoolVal(hv) if isinstance(hv, bool) else hv
        ln = z3.simplify(z3.If(hv, n, z3.IntVal(0)))
        for nm in (x, y):
            o, h = ivec(b, nm, ln)
            b.st.objs[this.id][nm] = o
            c[nm] = h
        perm(b, c[x], c[y], ln)
        c['have_' + x], c['len_' + x] = hv, ln
    if scales:
        for nm in ('rowscale', 'colscale'):
            hv = b.bool('have_' + nm)
            ln = z3.If(hv, n, z3.IntVal(0))
            o, h = fvec(b, nm, ln)
            b.st.objs[this.id][nm] = o
            c[nm], c['len_' + nm], c['have_' + nm] = h, ln, hv
    b.ex.default_fields(b.st, b.ex.record(cls), this)
    c['this'] = this
    return c


# ------------------------------------------------------------------------------------------------ setOrdering
def setordering(bs, hr, hc):
    def setup(b):
        n = b.int('length')
        b.assume(n >= 0)
        this = b.ex.new_obj(b.st, CLS(bs), {})
        b.ex.default_fields(b.st, b.ex.record(CLS(bs)), this)
        # a previous call may have left vectors of any length behind
        for nm in ('rp', 'irp', 'cp', 'icp'):
            L = b.int('old_' + nm)
            b.assume(L >= 0)
            b.st.objs[this.id][nm] = ivec(b, 'old' + nm, L)[0]
        args, c = [], dict(this=this, n=n, old={nm: dict(b.st.objs[b.st.objs[this.id][nm].id]) for nm in ('rp', 'irp', 'cp', 'icp')})
        for nm, hv in (('rord', hr), ('cord', hc)):
            if not hv:
                args.append(b.null('int'))
                continue
            p = b.iarr(nm, n, const=True)
            G = z3.Const('inv_' + nm, AI)
            perm(b, b.heap(p), G, n)
            args.append(p)
            c[nm], c['inv_' + nm] = b.heap(p), G
        c['args'] = args + [n]
        return c

    def cands(lc, c):
        if lc.iv is None:
            return []
        out = []
        for r in new_regions(lc):
            for nm in ('rord', 'cord'):
                if nm in c:
                    out.append(('copied-%s(%s)' % (nm, r), lambda s, r=r, nm=nm: forall(lambda t: (implies(rng(0, t, lc.ivval(s)), sel(s.heap[r], t) == sel(c[nm], t)), [sel(s.heap[r], t)]))))
                    out.append(('inverse-%s(%s)' % (nm, r), lambda s, r=r, nm=nm: forall(lambda t: (implies(z3.And(rng(0, t, c['n']), sel(c['inv_' + nm], t) < lc.ivval(s)),
                                                                                                          sel(s.heap[r], t) == sel(c['inv_' + nm], t)), [sel(s.heap[r], t)]))))
        return out

    def post(ex, s, fl, val, c):
        for p, ip, nm in (('rp', 'irp', 'rord'), ('cp', 'icp', 'cord')):
            P, Q = s.objs[s.objs[c['this'].id][p].id], s.objs[s.objs[c['this'].id][ip].id]
            if nm in c:
                ex.oblige(s, z3.And(P['len'] == c['n'], Q['len'] == c['n']), 'post: lengths of the orderings (%s)' % nm)
                ex.oblige(s, forall(lambda t: implies(rng(0, t, c['n']), sel(s.heap[P['rid']], t) == sel(c[nm], t))), 'post: the ordering is stored (%s)' % nm)
                ex.oblige(s, forall(lambda t: implies(rng(0, t, c['n']), sel(s.heap[Q['rid']], t) == sel(c['inv_' + nm], t))), 'post: its inverse is stored (%s)' % nm)
            else:
                for f, v in ((p, P), (ip, Q)):
                    ex.oblige(s, z3.And(v['len'] == c['old'][f]['len'], z3.BoolVal(v['rid'] == c['old'][f]['rid'])), 'post: an absent ordering changes nothing (%s)' % f)
    q = CLS(bs)[len('blasted::'):] + '::setOrdering'
    return Task('%s(%s,%s)' % (q, 'rows' if hr else 'null', 'columns' if hc else 'null'), [F], lambda f: f.qual == 'blasted::' + q or f.qual == q, setup, post, cands)


# ---------------------------------------------------------------------------------------------------- vectors
def vec_order(bs, mode, d):
    q = CLS(bs)[len('blasted::'):] + '::applyOrdering'
    P, Q = ('rp', 'irp') if d == 0 else ('cp', 'icp')
    e = el(bs)
    FLAT = z3.Const('FLAT', AR)

    def setup(b):
        n = b.int('n')
        b.assume(n >= 0)
        c = reorderer(b, bs, n, CLS(bs))
        v = b.farr('vec', n, bs)
        c.update(args=[v, z3.IntVal(mode), z3.IntVal(d)], n=n, v=v, v0=b.heap(v))

        def insts(lc, s):
            # FLAT: the same vector scalar by scalar (its definition at the places looked at)
            if lc.iv is None or bs == 1:
                return []
            x = [L.ivval(s) for L in lc.outer if L.iv is not None] + [lc.ivval(s)]
            out = [implies(x[0] >= 0, sel(FLAT, x[0]) == terms.elem(sel(c['v0'], x[0] / bs), x[0] % bs))]
            for i in (x[0], sel(c[P], x[0]), sel(c[Q], x[0])):
                for k in range(bs):
                    out.append(implies(i >= 0, sel(FLAT, i * bs + k) == e(c['v0'], i, k)))
            return out
        c['instances'] = insts
        return c

    def want(c, i):
        """where entry i of the result comes from"""
        return sel(c[P] if mode == 0 else c[Q], i)

    def cands(lc, c):
        if lc.iv is None:
            return []
        out = []
        for r in new_regions(lc, R):
            h = lambda s, r=r: s.heap[r]
            pt = lambda s, i, k: [sel(h(s), i)] if bs == 1 else [e(h(s), i, k)]
            if lc.entry.regs[r].unit == 1:
                src = lambda i: sel(c['v0'], i) if bs == 1 else sel(FLAT, i)
                out.append(('saved(%s)' % r, lambda s, h=h: forall(lambda i: (implies(z3.And(0 <= i, i < lc.ivval(s)), sel(h(s), i) == src(i)), [sel(h(s), i)]))))
            if bs > 1 and lc.entry.regs[r].unit == bs:
                out += flat_done(lc, 'saved(%s)' % r, r, bs, lambda s, b, k: e(c['v0'], b, k))
            if r == c['v'].reg:
                done = (lambda s, i: i < lc.ivval(s)) if mode == 0 else (lambda s, i: want(c, i) < lc.ivval(s))
                if bs == 1:
                    out.append(('moved', lambda s: forall(lambda i: (implies(z3.And(rng(0, i, c['n']), done(s, i)), sel(h(s), i) == sel(c['v0'], want(c, i))), [sel(h(s), i)]))))
                else:
                    for k in range(bs):
                        out.append(('moved%d' % k, lambda s, k=k: forall(lambda i: (implies(z3.And(rng(0, i, c['n']), done(s, i)), e(h(s), i, k) == e(c['v0'], want(c, i), k)), [sel(h(s), i)]))))
        return out

    def post(ex, s, fl, val, c):
        h = s.heap[c['v'].reg]
        for k in range(bs):
            ex.oblige(s, forall(lambda i: implies(z3.And(c['have_' + P], rng(0, i, c['n'])), e(h, i, k) == e(c['v0'], want(c, i), k))), 'post: entry comes from exactly the place the ordering says (component %d)' % k)
        ex.oblige(s, implies(z3.Not(c['have_' + P]), h == c['v0']), 'post: without this ordering the vector is unchanged')
    return Task('%s(vector,%s,%s)' % (q, ('FORWARD', 'INVERSE')[mode], ('ROW', 'COLUMN')[d]), [F],
                lambda f: f.qual.endswith(q) and len(f.params) == 3, setup, post, cands, opts={'par': 'sync', 'unroll': bs + 1, 'block': (bs, 0)})


# ---------------------------------------------------------------------------------------------------- scaling
def scaled(bs, mode, blk, f):
    """a block multiplied (divided) by its factor"""
    x = num(blk, 's' if bs == 1 else 'm')
    g = num(f, 's')
    return (g if mode == 0 else terms.recip(g)) * x


def vec_scale(bs, mode, d):
    q = SCL(bs)[len('blasted::'):] + '::applyScaling'
    S = ('rowscale', 'colscale')[d]

    def setup(b):
        n = b.int('n')
        b.assume(n >= 0)
        c = reorderer(b, bs, n, SCL(bs), scales=True)
        v = b.farr('vec', n, bs)
        c.update(args=[v, z3.IntVal(mode), z3.IntVal(d)], n=n, v=v, v0=b.heap(v))
        if mode == 1:
            b.assume(forall(lambda i: (implies(rng(0, i, n), sel(c[S], i) != 0), [sel(c[S], i)])))
        return c

    def want(c, i):
        return scaled(bs, mode, sel(c['v0'], i), sel(c[S], i)).z()

    def cands(lc, c):
        if lc.iv is None or c['v'].reg not in new_regions(lc, R):
            return []
        h = lambda s: s.heap[c['v'].reg]
        return [('scaled', lambda s: forall(lambda i: (implies(rng(0, i, lc.ivval(s)), sel(h(s), i) == want(c, i)), [sel(h(s), i)]))),
                ('rest', lambda s: forall(lambda i: (implies(i >= lc.ivval(s), sel(h(s), i) == sel(c['v0'], i)), [sel(h(s), i)])))]

    def post(ex, s, fl, val, c):
        h = s.heap[c['v'].reg]
        ex.oblige(s, forall(lambda i: implies(z3.And(c['have_' + S], rng(0, i, c['n'])), sel(h, i) == want(c, i))), 'post: every entry is multiplied (divided) by its own factor')
        ex.oblige(s, implies(z3.Not(c['have_' + S]), h == c['v0']), 'post: without factors the vector is unchanged')
    return Task('%s(vector,%s,%s)' % (q, ('FORWARD', 'INVERSE')[mode], ('ROW', 'COLUMN')[d]), [F],
                lambda f: f.qual.endswith(q) and len(f.params) == 3, setup, post, cands, opts={'par': 'sync', 'unroll': bs + 1})


def mat_scale(bs, mode):
    q = SCL(bs)[len('blasted::'):] + '::applyScaling'
    b2 = bs * bs

    def setup(b):
        m = srmatrix(b, 'A', bs, 0, kind='raw', const=False)
        c = reorderer(b, bs, m.n, SCL(bs), scales=True)
        c.update(args=[m.obj, z3.IntVal(mode)], m=m, n=m.n, G1=z3.Const('AFTERROWS', AR), G2=z3.Const('AFTERCOLS', AR))
        if mode == 1:
            for S in ('rowscale', 'colscale'):
                b.assume(forall(lambda i: (implies(rng(0, i, m.n), sel(c[S], i) != 0), [sel(c[S], i)])))
        c['instances'] = insts(c)
        return c

    def insts(c):
        """AFTERROWS / AFTERCOLS: every block after the row scaling and after both (each position lies in exactly one row)"""
        m = c['m']

        def f(lc, s):
            if lc.iv is None:
                return []
            l = [L.ivval(s) for L in lc.outer if L.iv is not None] + [lc.ivval(s)]
            if len(l) < 2:
                return []
            i, j = l[0], l[1]
            g1, g2 = sel(c['G1'], j), sel(c['G2'], j)
            x = sel(m.va, j)
            return [implies(z3.And(rng(0, i, m.n), rng(sel(m.rp, i), j, sel(m.rp, i + 1))), z3.And(
                implies(c['have_rowscale'], g1 == scaled(bs, mode, x, sel(c['rowscale'], i)).z()), implies(z3.Not(c['have_rowscale']), g1 == x),
                implies(z3.And(c['have_colscale'], z3.Not(c['have_rowscale'])), g2 == scaled(bs, mode, x, sel(c['colscale'], sel(m.ci, j))).z()),
                implies(z3.And(c['have_colscale'], c['have_rowscale']), z3.And(
                    g2 == scaled(bs, mode, g1, sel(c['colscale'], sel(m.ci, j))).z(),
                    g2 == (scaled2(c, i, j)).z())),
                implies(z3.Not(c['have_colscale']), g2 == g1)))]
        return f

    def scaled2(c, i, j):
        m = c['m']
        f = (lambda x: x) if mode == 0 else terms.recip
        return f(num(sel(c['colscale'], sel(m.ci, j)), 's')) * (f(num(sel(c['rowscale'], i), 's')) * num(sel(m.va, j), 's' if bs == 1 else 'm'))

    def cands(lc, c):
        m = c['m']
        if lc.iv is None or m.pval.reg not in new_regions(lc, R):
            return []
        outer = [x for x in lc.outer if x.iv is not None]
        cur = (lambda s: lc.ivval(s)) if outer else (lambda s: sel(m.rp, lc.ivval(s)))
        h = lambda s: s.heap[m.pval.reg]
        out = []
        for nm, G in (('rows', c['G1']), ('cols', c['G2'])):
            out.append(('done-' + nm, lambda s, G=G: forall(lambda j: (implies(rng(0, j, cur(s)), sel(h(s), j) == sel(G, j)), [sel(h(s), j)]))))
        for nm, G in (('old', m.va), ('rows', c['G1'])):
            out.append(('rest-' + nm, lambda s, G=G: forall(lambda j: (implies(rng(cur(s), j, m.nnz), sel(h(s), j) == sel(G, j)), [sel(h(s), j)]))))
        return out

    def post(ex, s, fl, val, c):
        m = c['m']
        h = s.heap[m.pval.reg]
        g = c['G2']
        some = z3.Or(c['have_rowscale'], c['have_colscale'])
        ex.oblige(s, forall(lambda j: implies(z3.And(some, rng(0, j, m.nnz)), sel(h, j) == sel(z3.If(c['have_colscale'], c['G2'], c['G1']), j))), 'post: every block is multiplied (divided) by its row and column factors')
        ex.oblige(s, implies(z3.Not(some), h == m.va), 'post: without factors the values are unchanged')
        for nm, p, a in (('row pointers', m.pbrow, m.rp), ('column indices', m.pcol, m.ci)):
            ex.oblige(s, s.heap[p.reg] == a, 'post: pattern unchanged (%s)' % nm)
    return Task('%s(matrix,%s)' % (q, ('FORWARD', 'INVERSE')[mode]), [F],
                lambda f: f.qual.endswith(q) and len(f.params) == 2, setup, post, cands, opts={'par': 'sync', 'unroll': b2 + 1})


TASKS = [setordering(b, r, c) for b in BS for r in (True, False) for c in (True, False)] + \
        [vec_order(b, m, d) for b in BS for m in (0, 1) for d in (0, 1)] + \
        [vec_scale(b, m, d) for b in BS for m in (0, 1) for d in (0, 1)] + \
        [mat_scale(b, m) for b in BS for m in (0, 1)]


# ----------------------------------------------------------------------------------------------- matrix orderings
def sort_contract(bs):
    """contract of sortBlockInnerDimension (established in specs/sort.py): with distinct columns the row ends up sorted and a permutation of (column, block) pairs"""
    def apply(ex, st, fn, this, vals, n):
        N, ci, va = ex.as_int(vals[0]), vals[1], vals[2]
        u = st.regs[va.reg].unit
        q, r0 = E.split_off(va.off, u) if u > 1 else (va.off, z3.IntVal(0))
        ex.oblige(st, z3.And(N >= 0, z3.IntVal(0) == (r0 if r0 is not None else 0)), 'precondition of the row sort: whole blocks', n)
        ex.oblige(st, z3.Or(N == 0, z3.And(ci.off >= 0, ci.off + N <= st.regs[ci.reg].len, q >= 0, q + N <= st.regs[va.reg].len)), 'precondition of the row sort: row inside the arrays', n)
        hc, hv = st.heap[ci.reg], st.heap[va.reg]
        o = z3.simplify(ci.off)
        ex.oblige(st, forall(lambda k, l: implies(z3.And(0 <= k, k < l, l < N), sel(hc, o + k) != sel(hc, o + l)), 2), 'precondition of the row sort: distinct columns', n)
        if st.regs[ci.reg].const or st.regs[va.reg].const:
            ex.oblige(st, False, 'frame: read-only', n)
        builtins_cxx.touch_range(ex, st, ci.reg, o, o + N, 'w')
        builtins_cxx.touch_range(ex, st, va.reg, q, q + N, 'w')
        nc, nv, P = fresh('sortedcols', AI), fresh('sortedvals', AR), fresh('from', AI)
        st.heap[ci.reg], st.heap[va.reg] = nc, nv
        ex.note_mod(('h', ci.reg))
        ex.note_mod(('h', va.reg))
        st.assume(forall(lambda j: (implies(z3.Not(rng(o, j, o + N)), sel(nc, j) == sel(hc, j)), [sel(nc, j)])))
        st.assume(forall(lambda j: (implies(z3.Not(rng(q, j, q + N)), sel(nv, j) == sel(hv, j)), [sel(nv, j)])))
        st.assume(forall(lambda j: (implies(rng(o, j, o + N), z3.And(rng(0, sel(P, j), N), sel(nc, j) == sel(hc, o + sel(P, j)), sel(nv, j - o + q) == sel(hv, q + sel(P, j)))), [sel(nc, j)])))
        st.assume(forall(lambda j, l: (implies(z3.And(o <= j, j < l, l < o + N), sel(nc, j) < sel(nc, l)), [z3.MultiPattern(sel(nc, j), sel(nc, l))]), 2))
        if z3.simplify(q).eq(o):
            st.assume(forall(lambda j: (implies(rng(o, j, o + N), sel(nv, j) == sel(hv, o + sel(P, j))), [sel(nv, j)])))
        return None
    return fw_contract('sortBlockInnerDimension', lambda fn: fn.name == 'sortBlockInnerDimension' and fn.qual.endswith('<double,int,%d>' % bs), apply)


def fw_contract(*a):
    import fw
    return fw.Contract(*a)


def eta(a, q, b2):
    """a block is the block of its components"""
    x = sel(a, q)
    return terms.mkraw(b2, 1, [terms.elem(x, z3.IntVal(k)) for k in range(b2)]) == x


POSN = z3.Function('POSN', I, I, I)


def mat_order(bs, mode, hr, hc):
    q = CLS(bs)[len('blasted::'):] + '::applyOrdering'
    b2 = bs * bs
    P, CN = ('rp', 'icp') if mode == 0 else ('irp', 'cp')      # new row i is old row P[i]; column c becomes CN[c]
    CB = 'cp' if mode == 0 else 'icp'

    def setup(b):
        m = srmatrix(b, 'A', bs, 0, kind='raw', const=False)
        c = reorderer(b, bs, m.n, CLS(bs), have=(hr, hc))
        c.update(args=[m.obj, z3.IntVal(mode)], m=m)
        # the matrix after the row moves
        if hr:
            c['RP1'], c['CI1'], c['VA1'] = z3.Const('RP1', AI), z3.Const('CI1', AI), z3.Const('VA1', AR)
            RP1 = c['RP1']
            b.assume(sel(RP1, 0) == 0, sel(RP1, m.n) == m.nnz)
            b.assume(forall(lambda i: (implies(z3.And(0 <= i, i <= m.n), z3.And(0 <= sel(RP1, i), sel(RP1, i) <= m.nnz)), [sel(RP1, i)])))
            b.assume(forall(lambda i, j: (implies(z3.And(0 <= i, i <= j, j <= m.n), sel(RP1, i) <= sel(RP1, j)), [z3.MultiPattern(sel(RP1, i), sel(RP1, j))]), 2))
            b.assume(forall(lambda j: (implies(rng(0, j, m.nnz), rng(0, sel(c['CI1'], j), m.n)), [sel(c['CI1'], j)])))
        else:
            c['RP1'], c['CI1'], c['VA1'] = m.rp, m.ci, m.va
        c['VF'] = z3.Const('VA1FLAT', AR)
        c['ROW'] = ROW = z3.Const('ROW', AI)
        if hc:
            RP1 = c['RP1']
            # the row of a position, and (distinct columns in every row) the position of a column
            b.assume(forall(lambda j: (implies(rng(0, j, m.nnz), z3.And(rng(0, sel(ROW, j), m.n), sel(RP1, sel(ROW, j)) <= j, j < sel(RP1, sel(ROW, j) + 1))), [sel(ROW, j)])))
            b.assume(forall(lambda j: (implies(rng(0, j, m.nnz), POSN(sel(ROW, j), sel(c['CI1'], j)) == j), [sel(c['CI1'], j)])))
        c['instances'] = insts(c)
        return c

    def moved(c, i, d):
        """entry d of new row i"""
        m = c['m']
        src = sel(m.rp, sel(c[P], i)) + d
        dst = sel(c['RP1'], i) + d
        out = [sel(c['CI1'], dst) == sel(m.ci, src), sel(c['VA1'], dst) == sel(m.va, src)]
        return implies(z3.And(rng(0, i, m.n), rng(0, d, sel(m.rp, sel(c[P], i) + 1) - sel(m.rp, sel(c[P], i)))), z3.And(out))

    def flatdef(c, q):
        return z3.And([sel(c['VF'], q * b2 + k) == terms.elem(sel(c['VA1'], q), z3.IntVal(k)) for k in range(b2)] + [eta(c['VA1'], q, b2)]) if bs > 1 else z3.BoolVal(True)

    def insts(c):
        m = c['m']

        def f(lc, s):
            if lc.iv is None:
                return []
            l = [L.ivval(s) for L in lc.outer if L.iv is not None] + [lc.ivval(s)]
            out = []
            if hr:
                for i in (l[0] - 1, l[0]):
                    out.append(implies(rng(0, i, m.n), z3.And(sel(c['RP1'], i + 1) == sel(c['RP1'], i) + sel(m.rp, sel(c[P], i) + 1) - sel(m.rp, sel(c[P], i)))))
                if len(l) == 2 and mode == 0:
                    i = l[0]
                    d = l[1] - sel(m.rp, sel(c[P], i))
                    out += [moved(c, i, d), flatdef(c, sel(c['RP1'], i) + d)]
                elif len(l) == 2:
                    # rows are scattered first (old row l[0] becomes new row rp[l[0]]), then gathered (new row l[0])
                    i = sel(c['rp'], l[0])
                    d = l[1] - sel(m.rp, l[0])
                    out += [moved(c, i, d), eta(c['VA1'], sel(c['RP1'], i) + d, b2) if bs > 1 else z3.BoolVal(True), eta(m.va, l[1], b2) if bs > 1 else z3.BoolVal(True)]
                    out.append(eta(c['VA1'], l[1], b2) if bs > 1 else z3.BoolVal(True))
                elif mode == 0:
                    out.append(flatdef(c, l[0]))
            if hc:
                # ROW: every position of row i belongs to row i
                for i in l[-2:]:
                    out.append(implies(rng(0, i, m.n), forall(lambda j: (implies(rng(sel(c['RP1'], i), j, sel(c['RP1'], i + 1)), sel(c['ROW'], j) == i), [sel(c['ROW'], j)]))))
            return out
        return f

    def cols_ok(c, s, j):
        """position j of the reordered matrix: an entry of the same row, its column renamed"""
        m = c['m']
        ci, va = s.heap[m.pcol.reg], s.heap[m.pval.reg]
        r = sel(c['ROW'], j)
        q = POSN(r, sel(c[CB], sel(ci, j)))
        return z3.And(rng(0, sel(ci, j), m.n), rng(sel(c['RP1'], r), q, sel(c['RP1'], r + 1)), sel(c['CI1'], q) == sel(c[CB], sel(ci, j)), sel(va, j) == sel(c['VA1'], q))

    def sorted_row(c, s, j, l):
        ci = s.heap[c['m'].pcol.reg]
        return implies(z3.And(j < l, sel(c['ROW'], j) == sel(c['ROW'], l)), sel(ci, j) < sel(ci, l))

    def rowlists(lc, c, ol, iv):
        """the temporary list of rows: new row r is complete once its old row has been passed"""
        m = c['m']
        out = []
        for rid in sorted({k[1].rsplit('.__', 1)[0] for k in lc.mods if k[0] == 'h' and '.__' in k[1]}):
            H = lambda s, f, rid=rid: s.heap[rid + '.__' + f]
            old = lambda r: sel(c['irp'], r)
            LEN = lambda r: sel(m.rp, old(r) + 1) - sel(m.rp, old(r))
            cur = (lambda s: ol[-1].ivval(s)) if ol else iv
            part = (lambda s: iv(s) - sel(m.rp, cur(s))) if ol else (lambda s: z3.IntVal(0))
            now = 1 if ol else 0
            out.append(('lengths(%s)' % rid, lambda s, H=H: forall(lambda r: (implies(rng(0, r, m.n), sel(H(s, 'len'), r) == z3.If(old(r) < cur(s) + now, LEN(r), z3.IntVal(0))), [sel(H(s, 'len'), r)]))))
            for f, G in (('data.first', c['CI1']), ('data.second', c['VA1'])):
                out.append(('%s(%s)' % (f, rid), lambda s, H=H, f=f, G=G: forall(lambda r, d: (implies(z3.And(rng(0, r, m.n), old(r) < cur(s), rng(0, d, LEN(r))),
                                                                                                       sel(sel(H(s, f), r), d) == sel(G, sel(c['RP1'], r) + d)), [sel(sel(H(s, f), r), d)]), 2)))
                if ol:
                    out.append(('%s-part(%s)' % (f, rid), lambda s, H=H, f=f, G=G: forall(lambda d: (implies(rng(0, d, part(s)), sel(sel(H(s, f), sel(c['rp'], cur(s))), d) == sel(G, sel(c['RP1'], sel(c['rp'], cur(s))) + d)),
                                                                                                     [sel(sel(H(s, f), sel(c['rp'], cur(s))), d)]))))
        return out

    def cands(lc, c):
        m = c['m']
        if lc.iv is None:
            return []
        out = []
        ol = [x for x in lc.outer if x.iv is not None]
        ints = int_cells(lc)
        iv = lambda s: lc.ivval(s)
        if hr and mode == 1:
            out += rowlists(lc, c, ol, iv)
        if hr:
            for nm, get in ints:
                if not ol:
                    out.append(('pos-row(%s)' % nm, lambda s, get=get: get(s) == sel(c['RP1'], iv(s))))
                else:
                    out.append(('pos-in-row(%s)' % nm, lambda s, get=get: get(s) == sel(c['RP1'], ol[-1].ivval(s)) + iv(s) - sel(m.rp, sel(c[P], ol[-1].ivval(s)))))
            bounds = [('pos(%s)' % nm, get) for nm, get in ints] + [('iv', iv)]
            if mode == 1 and not ol:
                bounds.append(('row', lambda s: sel(c['RP1'], iv(s))))
            for r in new_regions(lc):
                h = lambda s, r=r: s.heap[r]
                for bn, bd in bounds:
                    if r != m.pbrow.reg:
                        out.append(('cols-%s(%s)' % (bn, r), lambda s, h=h, bd=bd: forall(lambda j: (implies(rng(0, j, bd(s)), sel(h(s), j) == sel(c['CI1'], j)), [sel(h(s), j)]))))
                if not ol:
                    out.append(('ptrs(%s)' % r, lambda s, h=h: forall(lambda j: (implies(rng(0, j, iv(s)), sel(h(s), j) == sel(c['RP1'], j)), [sel(h(s), j)]))))
                    out.append(('ptrs1(%s)' % r, lambda s, h=h: forall(lambda j: (implies(z3.And(0 <= j, j <= iv(s)), sel(h(s), j) == sel(c['RP1'], j)), [sel(h(s), j)]))))
                    out.append(('lastptr(%s)' % r, lambda s, h=h: sel(h(s), m.n) == m.nnz))
            for r in new_regions(lc, R):
                h = lambda s, r=r: s.heap[r]
                for bn, bd in bounds:
                    if lc.entry.regs[r].unit == b2 and (bs > 1 or r == m.pval.reg):
                        out.append(('vals-%s(%s)' % (bn, r), lambda s, h=h, bd=bd: forall(lambda j: (implies(rng(0, j, bd(s)), sel(h(s), j) == sel(c['VA1'], j)), [sel(h(s), j)]))))
                    else:
                        G = c['VA1'] if bs == 1 else c['VF']
                        out.append(('flatvals-%s(%s)' % (bn, r), lambda s, h=h, bd=bd, G=G: forall(lambda j: (implies(rng(0, j, bd(s) * b2), sel(h(s), j) == sel(G, j)), [sel(h(s), j)]))))
        if hc and m.pcol.reg in new_regions(lc):
            ci = lambda s: s.heap[m.pcol.reg]
            va = lambda s: s.heap[m.pval.reg]
            RP1 = c['RP1']
            if not ol:
                cur = lambda s: sel(RP1, iv(s))
                out.append(('renamed', lambda s: forall(lambda j: (implies(rng(0, j, cur(s)), cols_ok(c, s, j)), [sel(ci(s), j)]))))
                out.append(('sorted', lambda s: forall(lambda j, l: (implies(z3.And(0 <= j, l < cur(s)), sorted_row(c, s, j, l)), [z3.MultiPattern(sel(ci(s), j), sel(ci(s), l))]), 2)))
                out.append(('restc', lambda s: forall(lambda j: (implies(rng(cur(s), j, m.nnz), sel(ci(s), j) == sel(c['CI1'], j)), [sel(ci(s), j)]))))
                out.append(('restv', lambda s: forall(lambda j: (implies(rng(cur(s), j, m.nnz), sel(va(s), j) == sel(c['VA1'], j)), [sel(va(s), j)]))))
            else:
                i = lambda s: ol[-1].ivval(s)
                e0 = lc.entry.heap[m.pcol.reg]
                out.append(('renamed-cols', lambda s: forall(lambda j: (implies(rng(sel(RP1, i(s)), j, sel(RP1, i(s)) + iv(s)), sel(ci(s), j) == sel(c[CN], sel(c['CI1'], j))), [sel(ci(s), j)]))))
                out.append(('others', lambda s: forall(lambda j: (implies(z3.Not(rng(sel(RP1, i(s)), j, sel(RP1, i(s)) + iv(s))), sel(ci(s), j) == sel(e0, j)), [sel(ci(s), j)]))))
        return out

    def post(ex, s, fl, val, c):
        m = c['m']
        rp, ci, va = (s.heap[p.reg] for p in (m.pbrow, m.pcol, m.pval))
        ex.oblige(s, forall(lambda i: implies(z3.And(0 <= i, i <= m.n), sel(rp, i) == sel(c['RP1'], i))), 'post: row pointers of the reordered rows')
        if not hc:
            ex.oblige(s, forall(lambda j: implies(rng(0, j, m.nnz), sel(ci, j) == sel(c['CI1'], j))), 'post: columns of the reordered rows')
            ex.oblige(s, forall(lambda j: implies(rng(0, j, m.nnz), sel(va, j) == sel(c['VA1'], j))), 'post: values of the reordered rows')
        else:
            ex.oblige(s, forall(lambda j: implies(rng(0, j, m.nnz), cols_ok(c, s, j))), 'post: every entry is the one of the renamed column in the same row')
            ex.oblige(s, forall(lambda j, l: implies(z3.And(0 <= j, l < m.nnz), sorted_row(c, s, j, l)), 2), 'post: rows are sorted')
        if hr:
            i, j = z3.Ints('lem_i lem_j')
            RP1 = c['RP1']
            step = implies(rng(0, i, m.n), sel(RP1, i + 1) == sel(RP1, i) + sel(m.rp, sel(c[P], i) + 1) - sel(m.rp, sel(c[P], i)))
            ex.oblige(s, implies(z3.And(step, 0 <= j, j <= i, i < m.n), z3.And(sel(RP1, i) <= sel(RP1, i + 1))), 'lemma: new row pointers grow (step)')
    return Task('%s(matrix,%s,%s,%s)' % (q, ('FORWARD', 'INVERSE')[mode], 'rows' if hr else '-', 'columns' if hc else '-'), [F, FH],
                lambda f: f.qual.endswith(q) and len(f.params) == 2, setup, post, cands, opts={'par': 'sync', 'unroll': b2 + 1}, modular=[sort_contract(bs)], budget=300)


TASKS += [mat_order(b, m, r, c) for b in BS for m in (0, 1) for r in (True, False) for c in (True, False)]
