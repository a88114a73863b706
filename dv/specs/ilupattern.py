"""Position lists of the incomplete factorization."""
import z3
from fw import *
import engine as E
import terms

F = 'src/ilu_pattern.cpp'

# ghost: position of column `col` in the upper part of row `c` (from the diagonal on), -1 if it is not stored there
POS = z3.Function('POS', I, I, I)


def posaxioms(b, m):
    b.assume(forall(lambda c, col: (implies(rng(0, c, m.n), z3.Or(POS(c, col) == -1, z3.And(sel(m.di, c) <= POS(c, col), POS(c, col) < sel(m.rp, c + 1),
                                                                                       sel(m.ci, POS(c, col)) == col))), [POS(c, col)]), 2))
    b.assume(forall(lambda c, col, t: (implies(z3.And(rng(0, c, m.n), sel(m.di, c) <= t, t < sel(m.rp, c + 1), sel(m.ci, t) == col), POS(c, col) == t),
                                       [z3.MultiPattern(POS(c, col), sel(m.ci, t))]), 3))


def notin(ci, lo, hi, target):
    return forall(lambda t: (implies(rng(lo, t, hi), sel(ci, t) != target), [sel(ci, t)]))


def increasing(a, lo, hi):
    return forall(lambda t, u: (implies(z3.And(lo <= t, t < u, u < hi), sel(a, t) < sel(a, u)), [z3.MultiPattern(sel(a, t), sel(a, u))]), 2)


def search_apply(ex, st, fn, this, vals, n):
    a, lo, hi, target, pos = vals
    if not (isinstance(a, E.Ptr) and a.reg and st.regs[a.reg].sort == I and z3.is_true(z3.simplify(a.off == 0))):
        return NotImplemented
    ex.oblige(st, z3.Or(lo >= hi, z3.And(lo >= 0, hi <= st.regs[a.reg].len)), 'precondition of inner_search: range inside the array', n)
    ex.oblige(st, increasing(st.heap[a.reg], lo, hi), 'precondition of inner_search: the range is sorted', n)
    lv = ex.deref(st, pos, n)
    old = ex.read(st, lv, n)
    v = terms.fresh('found', I)
    ci = st.heap[a.reg]
    st.assume(z3.Or(z3.And(rng(lo, v, hi), sel(ci, v) == target), z3.And(v == old, notin(ci, lo, hi, target))))
    ex.write(st, lv, v, n)
    return None


SEARCH = Contract('inner_search', lambda fn: fn.name == 'inner_search' and len(fn.params) == 5, search_apply)


def searchtask():
    def setup(b):
        ln = b.int('len')
        a = b.iarr('aind', ln, const=True)
        lo, hi, t = b.int('start'), b.int('end'), b.int('target')
        p = b.iarr('pos', z3.IntVal(1))
        b.assume(ln >= 0, z3.Or(lo >= hi, z3.And(lo >= 0, hi <= ln)), increasing(b.heap(a), lo, hi))
        return dict(this=None, args=[a, lo, hi, t, p], a=b.heap(a), lo=lo, hi=hi, t=t, p=p, old=sel(b.heap(p), 0))

    def cands(lc, c):
        out = [('same', lambda s: sel(s.heap[c['p'].reg], 0) == c['old'])]
        cells = int_cells(lc)
        if lc.iv is not None:
            out.append(('notfound', lambda s: notin(c['a'], c['lo'], lc.ivval(s), c['t'])))
            cells = cells + [('iv', lc.ivval)]
        if lc.iv is None or int_cells(lc):
            a, t = c['a'], c['t']
            for nm, g in cells:
                out.append(('from(%s)' % nm, lambda s, g=g: c['lo'] <= g(s)))
                out.append(('to(%s)' % nm, lambda s, g=g: implies(c['lo'] <= c['hi'], g(s) <= c['hi'])))
                out.append(('below(%s)' % nm, lambda s, g=g: forall(lambda k: (implies(rng(c['lo'], k, g(s)), sel(a, k) < t), [sel(a, k)]))))
                out.append(('atleast(%s)' % nm, lambda s, g=g: forall(lambda k: (implies(rng(g(s), k, c['hi']), sel(a, k) >= t), [sel(a, k)]))))
                out.append(('above(%s)' % nm, lambda s, g=g: forall(lambda k: (implies(rng(g(s), k, c['hi']), sel(a, k) > t), [sel(a, k)]))))
                out.append(('after(%s)' % nm, lambda s, g=g: forall(lambda k: (implies(z3.And(g(s) < k, k < c['hi']), sel(a, k) > t), [sel(a, k)]))))
        return out

    def post(ex, s, fl, val, c):
        v = sel(s.heap[c['p'].reg], 0)
        ex.oblige(s, z3.Or(z3.And(rng(c['lo'], v, c['hi']), sel(c['a'], v) == c['t']), z3.And(v == c['old'], notin(c['a'], c['lo'], c['hi'], c['t']))),
                  'post: a position holding the value, or untouched when there is none')
    return Task('inner_search', [F], lambda f: f.name == 'inner_search' and len(f.params) == 5, setup, post, cands)


# number of products found for position j among the positions of its row in a range
COUNT = terms.SumFn('ilucount', [AI, I], lambda ci, j, k: z3.If(POS(sel(ci, k), sel(ci, j)) != -1, z3.IntVal(1), z3.IntVal(0)), 'i')


def positions():
    """Ghosts: KE[j] = first position of the row of j whose column is not smaller than both indices of entry j; CNT[j] = number of products of entry j;
    PP = running sum of CNT; LG, UG = the lists themselves (product number c of entry j, found at position k, sits at PP[j] + c).  All of them are
    given by explicit definitions over the sorted pattern; the facts stated about them without definition are proved by induction at the end."""
    def setup(b):
        m = srmatrix(b, 'A', 1, 0, kind='raw', const=True, diag=True, sorted_=True)
        g = {k: z3.Const(k, AI) for k in ('KE', 'CNT', 'PP', 'LG', 'UG')}
        c = dict(m=m, this=None, args=[b_objptr(m.obj)], g=g)
        PP, CNT = g['PP'], g['CNT']
        b.assume(sel(PP, 0) == 0)
        b.assume(forall(lambda t: (implies(z3.And(0 <= t, t <= m.nnz), z3.And(0 <= sel(PP, t), sel(PP, t) <= sel(PP, m.nnz))), [sel(PP, t)])))
        c['instances'] = insts(c)
        return c

    def thr(m, i, j):
        return z3.If(i > sel(m.ci, j), sel(m.ci, j), i)

    def dij(c, i, j):
        m, g = c['m'], c['g']
        ke, t = sel(g['KE'], j), thr(m, i, j)
        return implies(z3.And(rng(0, i, m.n), rng(sel(m.rp, i), j, sel(m.rp, i + 1))), z3.And(
            sel(m.rp, i) <= ke, ke <= sel(m.rp, i + 1), implies(ke < sel(m.rp, i + 1), sel(m.ci, ke) >= t),
            forall(lambda k: (implies(rng(sel(m.rp, i), k, ke), sel(m.ci, k) < t), [sel(m.ci, k)])),
            sel(g['CNT'], j) == COUNT.z(m.ci, j, sel(m.rp, i), ke), dt(c, j)))

    def dt(c, t):
        m, g = c['m'], c['g']
        return implies(rng(0, t, m.nnz), z3.And(sel(g['PP'], t + 1) == sel(g['PP'], t) + sel(g['CNT'], t), sel(g['PP'], t + 1) <= sel(g['PP'], m.nnz)))

    def dijk(c, i, j, k):
        m, g = c['m'], c['g']
        cc, col = sel(m.ci, k), sel(m.ci, j)
        pos = POS(cc, col)
        at = sel(g['PP'], j) + COUNT.z(m.ci, j, sel(m.rp, i), k)
        return implies(z3.And(rng(0, i, m.n), rng(sel(m.rp, i), j, sel(m.rp, i + 1)), rng(sel(m.rp, i), k, sel(m.rp, i + 1))), z3.And(
            rng(0, cc, m.n), sel(m.rp, cc) <= sel(m.di, cc),   # the row of the searched range
            z3.Or(pos == -1, z3.And(sel(m.di, cc) <= pos, pos < sel(m.rp, cc + 1), sel(m.ci, pos) == col)),
            forall(lambda t: (implies(z3.And(sel(m.di, cc) <= t, t < sel(m.rp, cc + 1), sel(m.ci, t) == col), pos == t), [sel(m.ci, t)])),
            0 <= COUNT.z(m.ci, j, sel(m.rp, i), k),
            implies(k < sel(g['KE'], j), COUNT.z(m.ci, j, sel(m.rp, i), k + 1) <= COUNT.z(m.ci, j, sel(m.rp, i), sel(g['KE'], j))),
            implies(z3.And(k < sel(g['KE'], j), pos != -1), z3.And(sel(g['LG'], at) == k, sel(g['UG'], at) == pos))))

    def insts(c):
        def f(lc, s):
            if lc.iv is None:
                return []
            l = [L.ivval(s) for L in lc.outer if L.iv is not None] + [lc.ivval(s)]
            out = []
            if len(l) == 1:
                out.append(dt(c, l[0] - 1))
            if len(l) >= 2:
                out.append(dij(c, l[0], l[1]))
            if len(l) >= 3:
                out.append(dijk(c, l[0], l[1], l[2]))
            return out
        return f

    def cands(lc, c):
        m, g = c['m'], c['g']
        if lc.iv is None:
            return []
        out = []
        ol = [x for x in lc.outer if x.iv is not None]
        depth = len(ol) + 1
        L = lambda s: [x.ivval(s) for x in ol] + [lc.ivval(s)]
        # positions treated before the current one
        cur = (lambda s: L(s)[1]) if depth >= 2 else (lambda s: sel(m.rp, L(s)[0]))
        within = lambda s: COUNT.z(m.ci, L(s)[1], sel(m.rp, L(s)[0]), L(s)[2])
        lists = {}
        for o, f in lc.entry.objs.items():
            if 'ILUPositions' in f.get('__cls', ''):
                for k, gn in (('lowerp', 'LG'), ('upperp', 'UG')):
                    if isinstance(f.get(k), E.ObjRef):
                        lists[lc.entry.objs[f[k].id].get('rid')] = (gn,)
        for r in new_regions(lc):
            h = lambda s, r=r: s.heap[r]
            for gn in lists.get(r, () if lists else ('LG', 'UG')):
                end = (lambda s: sel(g['PP'], cur(s)) + (within(s) if depth >= 3 else 0))
                out.append(('list-%s(%s)' % (gn, r), lambda s, h=h, gn=gn, end=end: forall(lambda t: (implies(z3.And(0 <= t, t < end(s)), sel(h(s), t) == sel(g[gn], t)), [sel(h(s), t)]))))
            if r in lists:
                continue
            for sh in (0, 1):
                out.append(('count+%d(%s)' % (sh, r), lambda s, h=h, sh=sh: forall(lambda t: (implies(z3.And(sh <= t, t < cur(s) + sh), sel(h(s), t) == sel(g['CNT'], t - sh)), [sel(h(s), t)]))))
            out.append(('zero(%s)' % r, lambda s, h=h: forall(lambda t: (implies(z3.And(cur(s) < t, t < m.nnz), sel(h(s), t) == 0), [sel(h(s), t)]))))
            out.append(('zeroat(%s)' % r, lambda s, h=h: implies(cur(s) < m.nnz, sel(h(s), cur(s)) == 0)))
            out.append(('head(%s)' % r, lambda s, h=h: sel(h(s), 0) == 0))
            if depth >= 3:
                out.append(('part(%s)' % r, lambda s, h=h: sel(h(s), cur(s)) == within(s)))
            if depth == 1:
                out.append(('scan(%s)' % r, lambda s, h=h: forall(lambda t: (implies(z3.And(0 <= t, t < lc.ivval(s)), sel(h(s), t) == sel(g['PP'], t)), [sel(h(s), t)]))))
                out.append(('rest(%s)' % r, lambda s, h=h: forall(lambda t: (implies(z3.And(lc.ivval(s) <= t, t <= m.nnz), sel(h(s), t) == sel(g['CNT'], t - 1)), [sel(h(s), t)]))))
                for u, e in lc.entry.heap.items():
                    if u != r and u.startswith('vec') and e.sort() == AI:
                        out.append(('sum(%s,%s)' % (r, u), lambda s, h=h, e=e: sel(g['PP'], lc.ivval(s) - 1) == terms.ISUM.z(e, z3.IntVal(0), lc.ivval(s) - 1)))
        if depth >= 3:
            out.append(('before-end', lambda s: L(s)[2] <= sel(g['KE'], L(s)[1])))
            for nm, get in int_cells(lc):
                out.append(('offset(%s)' % nm, lambda s, get=get: get(s) == within(s)))
        return out

    def post(ex, s, fl, val, c):
        m, g = c['m'], c['g']
        o = s.objs[val.id]
        pp, lp, up = (s.objs[o[f].id] for f in ('posptr', 'lowerp', 'upperp'))
        P, L, U = (s.heap[x['rid']] for x in (pp, lp, up))
        ex.oblige(s, pp['len'] == m.nnz + 1, 'post: one list per stored entry')
        ex.oblige(s, forall(lambda j: implies(z3.And(0 <= j, j <= m.nnz), sel(P, j) == sel(g['PP'], j))), 'post: list boundaries are the running counts of products')
        ex.oblige(s, z3.And(lp['len'] == sel(g['PP'], m.nnz), up['len'] == sel(g['PP'], m.nnz)), 'post: the lists are covered exactly')
        for nm, A, G in (('lower', L, g['LG']), ('upper', U, g['UG'])):
            ex.oblige(s, forall(lambda t: implies(rng(0, t, sel(g['PP'], m.nnz)), sel(A, t) == sel(G, t))), 'post: every product is listed, in increasing order (%s)' % nm)
        # the facts assumed about the ghosts, by induction from their definitions
        j, k, h = b3 = [z3.Int('lem_' + x) for x in 'jkh']
        lo = z3.Int('lem_lo')
        C = lambda e: COUNT.z(m.ci, j, lo, e)
        ex.oblige(s, z3.And(C(lo) == 0, implies(z3.And(lo <= k, C(k) >= 0), C(k + 1) >= 0)), 'lemma: counts are not negative (base and step)')
        ex.oblige(s, z3.And(implies(k <= h, implies(C(k) <= C(h), C(k) <= C(h + 1))), C(k) <= C(k)), 'lemma: counts grow with the range (base and step)')
        P = lambda e: sel(g['PP'], e)
        ex.oblige(s, implies(z3.And(rng(0, k, m.nnz), 0 <= sel(g['CNT'], k), P(k + 1) == P(k) + sel(g['CNT'], k), rng(0, j, k + 1), P(j) <= P(k)), P(j) <= P(k + 1)), 'lemma: list boundaries are monotone (step)')
    return Task('compute_ILU_positions_CSR_CSR', [F, 'src/helper_algorithms.cpp'], lambda f: f.name == 'compute_ILU_positions_CSR_CSR', setup, post, cands, modular=[SEARCH], budget=400)


TASKS = [positions(), searchtask()]
