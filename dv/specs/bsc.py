"""Row-to-column conversion: every column holds exactly its stored blocks, ordered by row, with the diagonal position."""
import z3
from fw import *
import engine as E
import terms
from specs import adjacency as ADJ
from specs.adjacency import COLCNT, Z

F = 'src/scmatrix.cpp'
AAI = z3.ArraySort(I, AI)
BS = (1, 3, 4, 5, 7)
CSC = 'blasted::CRawBSCMatrix<double, int>'


class Ghosts:
    """PT, CO as for the adjacency lists; RR2[c][t], LL2[c][t]: row and position of the t-th stored entry of column c; RR[q], RL[q]: the same by output slot.
    DG[c]: slot of the diagonal entry of column c, or -1. Rows have distinct columns, so a column lists strictly increasing rows and has at most one diagonal entry."""

    def __init__(self, b, m):
        self.m = m
        g = ADJ.ghosts(b, m)
        self.PT, self.CO, self.RL, self.RR = g['PT'], g['CO'], g['RL'], g['RR']
        self.RR2, self.LL2 = z3.Const('RR2', AAI), z3.Const('LL2', AAI)
        self.DG = z3.Const('DG', AI)
        r2 = lambda c, t: sel(sel(self.RR2, c), t)
        b.assume(forall(lambda c, k, l: (implies(z3.And(rng(0, c, m.n), 0 <= k, k < l, l < self.cnt(c)), r2(c, k) < r2(c, l)), [z3.MultiPattern(r2(c, k), r2(c, l))]), 3))

    def cnt(self, c, j=None):
        return COLCNT.z(self.m.ci, c, Z, self.m.nnz if j is None else j)

    def slot(self, c, t):
        """definition of the ghosts at entry t of column c"""
        q = sel(self.PT, c) + t
        return implies(z3.And(rng(0, c, self.m.n), rng(0, t, self.cnt(c))), z3.And(
            0 <= q, q < self.m.nnz, sel(self.CO, q) == c, sel(self.RR, q) == sel(sel(self.RR2, c), t), sel(self.RL, q) == sel(sel(self.LL2, c), t),
            (sel(self.RR, q) == c) == (sel(self.DG, c) == q), rng(0, sel(self.RR, q), self.m.n), rng(0, sel(self.RL, q), self.m.nnz)))

    def col(self, c):
        P = self.PT
        return implies(rng(0, c, self.m.n), z3.And(sel(P, c + 1) == sel(P, c) + self.cnt(c), self.cnt(c) >= 0,
                                                   z3.Or(sel(self.DG, c) == -1, z3.And(sel(P, c) <= sel(self.DG, c), sel(self.DG, c) < sel(P, c + 1)))))

    def entry(self, i, j):
        c = sel(self.m.ci, j)
        t = self.cnt(c, j)
        return implies(z3.And(rng(0, i, self.m.n), rng(sel(self.m.rp, i), j, sel(self.m.rp, i + 1))), z3.And(
            sel(sel(self.RR2, c), t) == i, sel(sel(self.LL2, c), t) == j, 0 <= t, self.cnt(c, j + 1) <= self.cnt(c), self.cnt(c) >= 0))


def instances(c):
    m, g = c['m'], c['g']

    def f(lc, s):
        if lc.iv is None:
            return []
        l = [L.ivval(s) for L in lc.outer if L.iv is not None] + [lc.ivval(s)]
        out = [g.col(l[-1]), g.col(l[-1] - 1)]
        if len(l) >= 2:
            out += [g.entry(l[-2], l[-1]), g.slot(l[-2], l[-1]), g.col(l[-2])]
        return out
    return f


def cands(lc, c):
    m, g = c['m'], c['g']
    if lc.iv is None:
        return []
    out = []
    ol = [x for x in lc.outer if x.iv is not None]
    row = ol[0].ivval if ol else lc.ivval
    vv = {k[1].rsplit('.__len', 1)[0] for k in lc.mods if k[0] == 'h' and k[1].endswith('.__len')}
    for r in vv:
        # filling the columns: rows so far, or positions so far
        d = (lambda s: lc.ivval(s)) if ol else (lambda s: sel(m.rp, lc.ivval(s)))
        L = lambda s, x, r=r: sel(s.heap[r + '.__len'], x)
        out.append(('count(%s)' % r, lambda s, L=L: forall(lambda x: (implies(rng(0, x, m.n), L(s, x) == g.cnt(x, d(s))), [L(s, x)]))))
        for fld, ref in (('first', lambda x, t: sel(sel(g.RR2, x), t)), ('second', lambda x, t: sel(m.va, sel(sel(g.LL2, x), t)))):
            D = lambda s, x, t, fld=fld, r=r: sel(sel(s.heap[r + '.__data.' + fld], x), t)
            out.append(('%s(%s)' % (fld, r), lambda s, D=D, ref=ref: forall(lambda x, t: (implies(z3.And(rng(0, x, m.n), rng(0, t, g.cnt(x, d(s)))), D(s, x, t) == ref(x, t)), [D(s, x, t)]), 2)))
    # copying out: slots so far
    base = (lambda s: sel(g.PT, row(s)) + lc.ivval(s)) if ol else (lambda s: sel(g.PT, lc.ivval(s)))
    for k in lc.mods:
        if k[0] == 'l' and z3.is_expr(lc.entry.env.get(k[1])) and lc.entry.env[k[1]].sort() == I:
            out.append(('slot', lambda s, k=k: s.env[k[1]] == base(s)))
    for r in [x for x in new_regions(lc, I) if '.__' not in x]:
        h = lambda s, r=r: s.heap[r]
        out.append(('rows(%s)' % r, lambda s, h=h: forall(lambda q: (implies(z3.And(0 <= q, q < base(s)), sel(h(s), q) == sel(g.RR, q)), [sel(h(s), q)]))))
        if ol:
            out.append(('diag-at(%s)' % r, lambda s, h=h: sel(h(s), row(s)) == z3.If(z3.And(sel(g.DG, row(s)) >= 0, sel(g.DG, row(s)) < base(s)), sel(g.DG, row(s)), z3.IntVal(-1))))
        else:
            out.append(('diag(%s)' % r, lambda s, h=h: forall(lambda x: (implies(rng(0, x, lc.ivval(s)), sel(h(s), x) == sel(g.DG, x)), [sel(h(s), x)]))))
            out.append(('ptr(%s)' % r, lambda s, h=h: forall(lambda x: (implies(rng(0, x, lc.ivval(s)), sel(h(s), x) == sel(g.PT, x)), [sel(h(s), x)]))))
    for r in new_regions(lc, R):
        if lc.entry.regs[r].unit == m.bs * m.bs:
            h = lambda s, r=r: s.heap[r]
            out.append(('vals(%s)' % r, lambda s, h=h: forall(lambda q: (implies(z3.And(0 <= q, q < base(s)), sel(h(s), q) == sel(m.va, sel(g.RL, q))), [sel(h(s), q)]))))
    return out


def lemmas(ex, s, m, g):
    ADJ.lemmas(ex, s, m, dict(PT=g.PT))
    # a later entry of the same column lies in a later row, because a row has distinct columns
    i, k, j, l = z3.Ints('lem_i lem_k2 lem_j2 lem_l')
    s2 = s.copy()
    s2.assume(z3.And(rng(0, i, m.n), rng(0, k, m.n), rng(sel(m.rp, i), j, sel(m.rp, i + 1)), rng(sel(m.rp, k), l, sel(m.rp, k + 1)), j < l,
                     sel(m.ci, j) == sel(m.ci, l), implies(i == k, sel(m.ci, j) != sel(m.ci, l)),
                     implies(k + 1 <= i, sel(m.rp, k + 1) <= sel(m.rp, i))))
    ex.oblige(s2, i < k, 'lemma: entries of a column at later positions lie in later rows')


def convert(bs):
    def setup(b):
        m = srmatrix(b, 'A', bs, 0, kind='raw')
        o = b.ex.new_obj(b.st, CSC, {})
        b.ex.default_fields(b.st, b.ex.record(CSC), o)
        c = dict(m=m, out=o, g=Ghosts(b, m), this=None)
        c['args'] = [b_objptr(m.obj), b_objptr(o)]
        c['instances'] = instances(c)
        return c

    def post(ex, s, fl, val, c):
        m, g = c['m'], c['g']
        o = s.objs[c['out'].id]
        h = lambda k: s.heap[o[k].reg]
        for k, ln in (('bcolptr', m.n + 1), ('browind', m.nnz), ('vals', m.nnz), ('diagind', m.n)):
            r = s.regs[o[k].reg]
            ex.oblige(s, z3.And(r.len == ln, o[k].off == 0, z3.BoolVal(s.alive.get(o[k].reg) is True)), 'post: %s is an array of the right length, allocated and not freed' % k)
        ex.oblige(s, o['nbcols'] == m.n, 'post: number of columns')
        ex.oblige(s, z3.And(forall(lambda x: implies(rng(0, x, m.n), sel(h('bcolptr'), x) == sel(g.PT, x))), sel(h('bcolptr'), m.n) == m.nnz), 'post: the columns follow one another')
        ex.oblige(s, forall(lambda q: implies(rng(0, q, m.nnz), sel(h('browind'), q) == sel(g.RR, q))), 'post: every slot has the row of the entry that belongs there')
        ex.oblige(s, forall(lambda q: implies(rng(0, q, m.nnz), sel(h('vals'), q) == sel(m.va, sel(g.RL, q)))), 'post: every slot has the block of the entry that belongs there')
        ex.oblige(s, forall(lambda x: implies(rng(0, x, m.n), sel(h('diagind'), x) == sel(g.DG, x))), 'post: diagonal positions, -1 if absent')
        for nm, p, a in (('browptr', m.pbrow, m.rp), ('bcolind', m.pcol, m.ci), ('vals', m.pval, m.va)):
            ex.oblige(s, s.heap[p.reg] == a, 'post: matrix unchanged (%s)' % nm)
        lemmas(ex, s, m, g)
    opts = dict(unroll=bs * bs + 1)
    if bs > 1:
        opts['block'] = (bs * bs, 0)
    return Task('convert_BSR_to_BSC<double,int,%d>' % bs, [F], lambda f: f.qual.endswith('convert_BSR_to_BSC<double,int,%d>' % bs), setup, post, cands, opts=opts)


TASKS = [convert(bs) for bs in BS]


# ----------------------------------------------------------------------------------------------- products
def gterm(bs):
    def f(va, ri, co, x, a, t, j):
        p = num(sel(va, j), 's' if bs == 1 else 'm') * num(sel(x, sel(co, j)), 's' if bs == 1 else 'm')
        v = Num.atom(a, 's') * (p if bs == 1 else terms.component(p, t % bs))
        return z3.If(sel(ri, j) == t / bs, v.z(), z3.RealVal(0))
    return f


GS = {bs: terms.SumFn('colprod%d' % bs, [AR, AI, AI, AR, R, I], gterm(bs), 's') for bs in (3, 4, 7)}


def gemv(bs, stor, inplace):
    FM = 'src/blas/matvecs.cpp'

    def setup(b):
        n, nnz = b.int('n'), b.int('nnz')
        b.assume(n >= 0, nnz >= 0)
        o = b.ex.new_obj(b.st, CSC, {})
        b.ex.default_fields(b.st, b.ex.record(CSC), o)
        P, RI, V = b.iarr('bcolptr', n + 1, True), b.iarr('browind', nnz, True), b.farr('vals', nnz, bs * bs, stor, True)
        D = b.iarr('diagind', n, True)
        b.st.objs[o.id].update(bcolptr=P, browind=RI, vals=E.Ptr(V.reg, V.off, 1, 'double'), diagind=D, nbcols=n)
        p, ri, va = b.heap(P), b.heap(RI), b.heap(V)
        b.assume(sel(p, 0) == 0, sel(p, n) == nnz)
        b.assume(forall(lambda i: (implies(z3.And(0 <= i, i <= n), z3.And(0 <= sel(p, i), sel(p, i) <= nnz)), [sel(p, i)])))
        b.assume(forall(lambda q: (implies(rng(0, q, nnz), rng(0, sel(ri, q), n)), [sel(ri, q)])))
        CO = z3.Const('CO', AI)
        x = b.farr('x', n, bs, const=True)
        z = b.farr('z', n * bs)
        y = z if inplace else b.farr('y', n * bs, const=True)
        al, be = b.scalar('alpha'), b.scalar('beta')
        c = dict(this=None, n=n, nnz=nnz, p=p, ri=ri, va=va, CO=CO, x=b.heap(x), y=b.heap(y), z=z, al=al, be=be, ro=((P, p), (RI, ri), (V, va)))
        c['args'] = [b_objptr(o), al, E.Ptr(x.reg, x.off, 1, 'double'), be, y, z]

        def inst(lc, s):
            if lc.iv is None:
                return []
            l = [L.ivval(s) for L in lc.outer if L.iv is not None] + [lc.ivval(s)]
            out = [implies(rng(0, l[0], n), sel(p, l[0]) <= sel(p, l[0] + 1))]
            if len(l) == 2:
                # CO: the column a slot lies in
                out.append(implies(z3.And(rng(0, l[0], n), rng(sel(p, l[0]), l[1], sel(p, l[0] + 1))), sel(CO, l[1]) == l[0]))
            return out
        c['instances'] = inst
        return c

    def want(c, t, e):
        return c['be'] * num(sel(c['y'], t), 's') + GS[bs](c['va'], c['ri'], c['CO'], c['x'], c['al'].z(), t, Z, e)

    def cands(lc, c):
        if lc.iv is None:
            return []
        out = []
        r = c['z'].reg
        if r not in new_regions(lc, R):
            return []
        h = lambda s: s.heap[r]
        top = not [x for x in lc.outer if x.iv is not None]
        if top:
            out.append(('scaled', lambda s: forall(lambda t: (implies(rng(0, t, lc.ivval(s)), sel(h(s), t) == (c['be'] * num(sel(c['y'], t), 's')).z()), [sel(h(s), t)]))))
        d = (lambda s: sel(c['p'], lc.ivval(s))) if top else (lambda s: lc.ivval(s))
        out.append(('accumulated', lambda s: forall(lambda t: (implies(rng(0, t, c['n'] * bs), sel(h(s), t) == want(c, t, d(s)).z()), [sel(h(s), t)]))))
        return out

    def post(ex, s, fl, val, c):
        ex.oblige(s, forall(lambda t: implies(rng(0, t, c['n'] * bs), sel(s.heap[c['z'].reg], t) == want(c, t, c['nnz']).z())),
                  'post: every entry is beta y plus the alpha-scaled products of all stored blocks of its row')
        for p, a in c['ro']:
            ex.oblige(s, s.heap[p.reg] == a, 'post: matrix unchanged (%s)' % p.reg)
    q = 'bcsc_gemv3<double,int,%d,%d>' % (bs, stor)
    return Task(q + (' in place' if inplace else ''), [FM], lambda f: f.qual.endswith(q), setup, post, cands, opts=dict(par='sync', unroll=bs + 1))


TASKS += [gemv(bs, st, ip) for bs, st in ((3, 0), (4, 0), (7, 1)) for ip in (False, True)]


# ----------------------------------------------------------------------------------------------- one-based
def convert_contract(bs, box):
    """contract of convert_BSR_to_BSC established above"""
    def apply(ex, st, fn, this, vals, n):
        c = box['c']
        m, g = c['m'], c['g']
        src, dst = vals[0].ref, vals[1].ref
        so, mo = st.objs[src.id], st.objs[m.obj.id]
        ex.oblige(st, z3.And(so['nbrows'] == m.n, z3.BoolVal(so['browptr'].reg == m.pbrow.reg and so['bcolind'].reg == m.pcol.reg and so['vals'].reg == m.pval.reg),
                             so['browptr'].off == 0, so['bcolind'].off == 0, so['vals'].off == 0), 'precondition of the conversion: the matrix itself', n)
        ex.oblige(st, z3.And(*[st.heap[p.reg] == a for p, a in ((m.pbrow, m.rp), (m.pcol, m.ci), (m.pval, m.va))]), 'precondition of the conversion: matrix not modified', n)
        fields = {}
        for k, ln, G in (('bcolptr', m.n + 1, g.PT), ('browind', m.nnz, g.RR), ('diagind', m.n, g.DG), ('vals', m.nnz, None)):
            srt = R if k == 'vals' else I
            rid = ex.new_region(st, k, srt, bs * bs if k == 'vals' else 1, ln, 'm' if k == 'vals' and bs > 1 else 's')
            st.alive[rid] = True
            h = st.heap[rid]
            if G is None:
                st.assume(forall(lambda q: (implies(rng(0, q, ln), sel(h, q) == sel(m.va, sel(g.RL, q))), [sel(h, q)])))
            else:
                st.assume(forall(lambda q: (implies(rng(0, q, ln), sel(h, q) == sel(G, q)), [sel(h, q)])))
            fields[k] = E.Ptr(rid, z3.IntVal(0), 1, 'double' if k == 'vals' else 'int')
        fields['nbcols'] = m.n
        for k, v in fields.items():
            st.objs[dst.id][k] = v
            ex.note_mod(('f', dst.id, k))
        c['made'] = fields
        return None
    return Contract('convert_BSR_to_BSC', lambda fn: fn.qual.endswith('convert_BSR_to_BSC<double,int,%d>' % bs), apply)


def onebased(bs):
    box = {}

    def setup(b):
        m = srmatrix(b, 'A', bs, 0, kind='raw')
        c = dict(m=m, g=Ghosts(b, m), this=None, args=[b_objptr(m.obj)])
        box['c'] = c
        return c

    def lists(c):
        m, g = c['m'], c['g']
        return (('bcolptr', m.n + 1, g.PT), ('browind', m.nnz, g.RR), ('diagind', m.n, g.DG))

    def cands(lc, c):
        if lc.iv is None or 'made' not in c:
            return []
        out = []
        for r in new_regions(lc, I):
            for k, ln, G in lists(c):
                if r == c['made'][k].reg:
                    out.append(('shifted-%s' % k, lambda s, r=r, G=G: forall(lambda t: (implies(rng(0, t, lc.ivval(s)), sel(s.heap[r], t) == sel(G, t) + 1), [sel(s.heap[r], t)]))))
                    out.append(('kept-%s' % k, lambda s, r=r, G=G, ln=ln: forall(lambda t: (implies(z3.And(lc.ivval(s) <= t, t < ln), sel(s.heap[r], t) == sel(G, t)), [sel(s.heap[r], t)]))))
        return out

    def post(ex, s, fl, val, c):
        m, g = c['m'], c['g']
        if not isinstance(val, E.ObjRef):
            raise E.Unsupported('the conversion does not return a matrix')
        o = s.objs[val.id]
        ex.oblige(s, o['nbcols'] == m.n, 'post: number of columns')
        for k, ln, G in lists(c):
            r = s.regs[o[k].reg]
            ex.oblige(s, z3.And(r.len == ln, o[k].off == 0, z3.BoolVal(s.alive.get(o[k].reg) is True)), 'post: %s is an array of the right length, allocated and not freed' % k)
            ex.oblige(s, forall(lambda t: implies(rng(0, t, ln), sel(s.heap[o[k].reg], t) == sel(G, t) + 1)), 'post: %s is that of the zero-based conversion, increased by one' % k)
        v = o['vals'].reg
        ex.oblige(s, z3.And(o['vals'].off == 0, s.regs[v].len == m.nnz, z3.BoolVal(s.alive.get(v) is True)), 'post: vals is an array of the right length, allocated and not freed')
        ex.oblige(s, forall(lambda q: implies(rng(0, q, m.nnz), sel(s.heap[v], q) == sel(m.va, sel(g.RL, q)))), 'post: every slot has the block of the entry that belongs there')
        for nm, p, a in (('browptr', m.pbrow, m.rp), ('bcolind', m.pcol, m.ci), ('vals', m.pval, m.va)):
            ex.oblige(s, s.heap[p.reg] == a, 'post: matrix unchanged (%s)' % nm)
    q = 'convert_BSR_to_BSC_1based<double,int,%d>' % bs
    return Task(q, [F], lambda f: f.qual.endswith(q), setup, post, cands, modular=[convert_contract(bs, box)])


TASKS.append(onebased(1))
