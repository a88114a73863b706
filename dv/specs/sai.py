"""Approximate-inverse patterns: unknowns, equations and coupling entries of every row's least-squares system."""
import z3
from fw import *
import engine as E
import terms
from builtins_cxx import CARD, RANK, AIb, member_fact

F = 'src/sai.cpp'
FH = 'src/helper_algorithms.cpp'
Z0 = z3.IntVal(0)
FIELDS = ('bpos', 'browind', 'bcolptr', 'sairowptr', 'nVars', 'nEqns', 'localCentralRow')
PS = z3.Function('PS', I, I, AIb)


class Ghosts:
    """NS[i]: unknowns of the rows before i; unknown t = NS[i]+(jj-begin(i)) of row i is the entry TP[t]=jj.
    BC[t]: stored entries in the rows of the unknowns before t; coupling p = BC[t]+(kk-begin(col)) is the entry KP[p]=kk of the row col of unknown t.
    PS(i,p): columns of the couplings of row i before p; EQ(i): all of them (the equations of row i).
    RK[p]: place of the column of coupling p among the equations of its row; LN2, RK3: length and places by row, unknown and offset in the row of the unknown.
    Incomplete variant: MT[p]: position in row i of the column of coupling p, or -1 (rows have distinct columns); OB, OW: position and local row of the couplings that have one, in order; IC[p]: couplings before p that have one.
    Different (i,jj,kk) have different t and p (the ranges follow one another), so the arrays exist."""

    def __init__(self, b, m, full):
        self.m, self.full = m, full
        self.NS, self.TP, self.BC, self.KP, self.RK, self.MT, self.IC, self.OB, self.OW, self.DS, self.DC, self.ST = (z3.Const(k, AI) for k in ('NS', 'TP', 'BC', 'KP', 'RK', 'MT', 'IC', 'OB', 'OW', 'DS', 'DC', 'ST'))
        self.LN2, self.RK3 = z3.Const('LN2', z3.ArraySort(I, AI)), z3.Const('RK3', z3.ArraySort(I, z3.ArraySort(I, AI)))
        n, NS, BC, IC = m.n, self.NS, self.BC, self.IC
        b.assume(sel(NS, 0) == 0, sel(BC, 0) == 0, sel(IC, 0) == 0)
        b.assume(forall(lambda i, j: (implies(z3.And(0 <= i, i <= j, j <= n), sel(NS, i) <= sel(NS, j)), [z3.MultiPattern(sel(NS, i), sel(NS, j))]), 2))
        b.assume(forall(lambda i: (implies(z3.And(0 <= i, i <= n), z3.And(0 <= sel(NS, i), sel(NS, i) <= sel(NS, n))), [sel(NS, i)])))
        self.nt = sel(NS, n)
        self.np = sel(BC, self.nt)
        b.assume(self.start(Z0), self.start(self.nt))
        b.assume(forall(lambda t: (implies(z3.And(0 <= t, t <= self.nt), z3.And(0 <= sel(BC, t), sel(BC, t) <= self.np)), [sel(BC, t)])))
        if not full:
            b.assume(forall(lambda p: (implies(z3.And(0 <= p, p <= self.np), z3.And(0 <= sel(IC, p), sel(IC, p) <= sel(IC, self.np))), [sel(IC, p)])))
        # in-row columns are in range, so the row of an unknown exists
        b.assume(forall(lambda t: (implies(rng(0, t, self.nt), z3.And(rng(0, sel(self.TP, t), m.nnz), sel(BC, t + 1) == sel(BC, t) + self.len(sel(m.ci, sel(self.TP, t))))), [sel(self.TP, t)])))

    def len(self, i):
        return self.m.en(i) - sel(self.m.rp, i)

    def EQ(self, i):
        return PS(i, sel(self.BC, sel(self.NS, i + 1)))

    def start(self, t):
        """definition of ST (start of the couplings of an unknown) and of its differences DC"""
        f = lambda t: sel(self.BC, t) if self.full else sel(self.IC, sel(self.BC, t))
        return z3.And(sel(self.ST, t) == f(t), sel(self.ST, t + 1) == f(t + 1), sel(self.DC, t + 1) == sel(self.ST, t + 1) - sel(self.ST, t))

    def t(self, i, jj):
        return sel(self.NS, i) + jj - sel(self.m.rp, i)

    def p(self, i, jj, kk):
        return sel(self.BC, self.t(i, jj)) + kk - sel(self.m.rp, sel(self.m.ci, jj))

    def row(self, i):
        m = self.m
        sets = [PS(i, sel(self.BC, sel(self.NS, i))) == z3.K(I, z3.BoolVal(False)), sel(self.EQ(i), i), member_fact(self.EQ(i), i)] if self.full else []
        return implies(rng(0, i, m.n), z3.And(
            sel(self.NS, i + 1) == sel(self.NS, i) + self.len(i), self.len(i) >= 1, sel(self.DS, i + 1) == self.len(i), self.start(sel(self.NS, i)), self.start(sel(self.NS, i + 1)), sel(self.NS, i + 1) <= self.nt,
            sel(self.BC, sel(self.NS, i)) <= sel(self.BC, sel(self.NS, i + 1)), sel(self.BC, sel(self.NS, i + 1)) <= self.np, *sets))

    def unk(self, i, jj):
        m, t = self.m, self.t(i, jj)
        x = qvar('x')
        rk = sel(sel(sel(self.RK3, i), jj - sel(m.rp, i)), x)
        places = [E.qall([x], implies(rng(0, x, self.len(sel(m.ci, jj))), rng(0, rk, CARD(self.EQ(i)))), [rk]), sel(sel(self.LN2, i), jj - sel(m.rp, i)) == self.len(sel(m.ci, jj))] if self.full else []
        return implies(z3.And(rng(0, i, m.n), rng(sel(m.rp, i), jj, m.en(i))), z3.And(
            sel(self.TP, t) == jj, self.start(t), *places, self.row(sel(m.ci, jj)), sel(self.BC, t + 1) == sel(self.BC, t) + self.len(sel(m.ci, jj)), 0 <= t, t < self.nt,
            sel(self.BC, t + 1) <= self.np, (sel(m.ci, jj) == i) == (jj == sel(m.di, i)), rng(0, sel(m.ci, jj), m.n)))

    def cpl(self, i, jj, kk):
        m, p = self.m, self.p(i, jj, kk)
        c = sel(m.ci, jj)
        x = sel(m.ci, kk)
        if self.full:
            more = [PS(i, p + 1) == z3.Store(PS(i, p), x, z3.BoolVal(True)), sel(self.EQ(i), x), member_fact(self.EQ(i), x),
                    sel(self.RK, p) == RANK(self.EQ(i), x), sel(sel(sel(self.RK3, i), jj - sel(m.rp, i)), kk - sel(m.rp, c)) == RANK(self.EQ(i), x)]
        else:
            more = [z3.Or(sel(self.MT, p) == -1, z3.And(sel(m.rp, i) <= sel(self.MT, p), sel(self.MT, p) < m.en(i))),
                    implies(sel(self.MT, p) >= 0, z3.And(sel(self.OB, sel(self.IC, p)) == kk, sel(self.OW, sel(self.IC, p)) == sel(self.MT, p) - sel(m.rp, i))),
                    sel(self.IC, p + 1) == sel(self.IC, p) + z3.If(sel(self.MT, p) >= 0, z3.IntVal(1), z3.IntVal(0)), sel(self.IC, p + 1) <= sel(self.IC, self.np)]
        return implies(z3.And(rng(0, i, m.n), rng(sel(m.rp, i), jj, m.en(i)), rng(sel(m.rp, c), kk, m.en(c))), z3.And(
            self.unk(i, jj), sel(self.KP, p) == kk, rng(0, p, self.np), *more))

    def match(self, i, jj, kk, ll):
        m = self.m
        return implies(z3.And(self.cpl(i, jj, kk), rng(0, i, m.n), rng(sel(m.rp, i), ll, m.en(i))), (sel(m.ci, ll) == sel(m.ci, kk)) == (sel(self.MT, self.p(i, jj, kk)) == ll))


def setup_of(full):
    def setup(b):
        m = srmatrix(b, 'A', 1, 0, kind='storage', const=True, sorted_=True, diag=True, compact=False)
        g = Ghosts(b, m, full)
        c = dict(this=None, args=[m.obj], m=m, g=g)

        def inst(lc, s):
            if lc.iv is None:
                return []
            l = [L.ivval(s) for L in lc.outer if L.iv is not None] + [lc.ivval(s)]
            out = [g.row(l[0]), g.row(l[0] - 1), g.start(l[0]), g.start(l[0] - 1)]
            if len(l) >= 2:
                out.append(g.unk(l[0], l[1]))
            # loops over the couplings of the unknown
            Ls = [L for L in lc.outer if L.iv is not None] + [lc]
            for L in Ls[2:]:
                if z3.simplify(L.iv0).eq(z3.simplify(sel(m.rp, sel(m.ci, l[1])))):
                    out.append(g.cpl(l[0], l[1], L.ivval(s)))
            if len(l) >= 4 and not full:
                out.append(g.match(l[0], l[1], l[2], l[3]))
            return out

        def hints(lc, s):
            """tautologies: equal indices, equal elements"""
            l = [L.ivval(s) for L in lc.outer if L.iv is not None] + [lc.ivval(s)]
            ends = []
            def same_unknown(t, e):
                ends.append(implies(t == e, z3.And([f(t) == f(e) for f in [lambda t: sel(g.BC, t), lambda t: sel(g.ST, t), lambda t: sel(g.DC, t)] + ([] if full else [lambda t: sel(g.IC, sel(g.BC, t))])])))
            if len(l) >= 2:
                same_unknown(g.t(l[0], l[1]), sel(g.NS, l[0] + 1))
                same_unknown(sel(g.NS, l[0]), g.t(l[0], sel(m.rp, l[0])))
                T = g.t(l[0], l[1])
                if not full:
                    for kk, e in ((m.en(sel(m.ci, l[1])), sel(g.BC, T + 1)), (sel(m.rp, sel(m.ci, l[1])), sel(g.BC, T))):
                        p = g.p(l[0], l[1], kk)
                        ends.append(implies(p == e, sel(g.IC, p) == sel(g.IC, e)))
            role = roles(s)
            S, A = role.get('sairowptr'), role.get('bcolptr')
            if len(l) < 2 or S is None or A is None:
                return ends
            x, y = sel(s.heap[S], l[0]), sel(g.NS, l[0])
            d = l[1] - sel(m.rp, l[0])
            same = lambda f: z3.And([f(z3.simplify(x + d + k)) == f(z3.simplify(y + d + k)) for k in (0, 1)])
            return ends + [implies(x == y, z3.And(same(lambda t: sel(s.heap[A], t)), same(lambda t: sel(g.BC, t)), *([] if full else [same(lambda t: sel(g.IC, sel(g.BC, t)))])))]
        c['instances'] = lambda lc, s: inst(lc, s) + (hints(lc, s) if lc.iv is not None else [])
        return c
    return setup


def roles(s):
    for o in s.objs.values():
        if 'LeftSAIPattern' in o.get('__cls', ''):
            return {k: s.objs[o[k].id].get('rid') for k in FIELDS}
    return {}


def arr(s, r, t):
    return sel(s.heap[r], t)


def cands_of(full):
    def cands(lc, c):
        m, g = c['m'], c['g']
        if lc.iv is None:
            return []
        out = []
        L = [x for x in lc.outer if x.iv is not None] + [lc]
        d = len(L)
        iv = lambda s, k: L[k].ivval(s)
        i = lambda s: iv(s, 0)
        # unknowns and couplings already visited
        T = lambda s: sel(g.NS, i(s)) if d == 1 else g.t(i(s), iv(s, 1))
        P = lambda s: sel(g.BC, T(s)) if d < 3 else g.p(i(s), iv(s, 1), iv(s, 2))
        M = (lambda s: sel(g.IC, P(s)) + (z3.If(z3.And(sel(g.MT, P(s)) >= 0, sel(g.MT, P(s)) < iv(s, 3)), z3.IntVal(1), z3.IntVal(0)) if d == 4 else 0))
        CNT = P if full else M
        for nm, get in int_cells(lc):
            out.append(('couplings(%s)' % nm, lambda s, get=get: get(s) == CNT(s)))
            if not full and d >= 3:
                out.append(('couplings-of-unknown(%s)' % nm, lambda s, get=get: get(s) == CNT(s) - sel(g.IC, sel(g.BC, T(s)))))
        for k in lc.mods:
            if k[0] == 'h' and k[1].endswith('.__set'):
                out.append(('equations', lambda s, k=k: s.heap[k[1]] == PS(i(s), P(s))))
        start = lambda t: sel(g.ST, t)
        # which list of the result an array is (the field names are the interface)
        role = {v: k for k, v in roles(lc.entry).items()}
        for r in [x for x in new_regions(lc, I) if '.' not in x]:
            A = lambda s, t, r=r: arr(s, r, t)
            is_ = lambda *k, r=r: role.get(r, k[0]) in k

            def upto(nm, hi, f, lo=0, A=A, r=r):
                out.append(('%s(%s)' % (nm, r), lambda s: forall(lambda t: (implies(z3.And(lo <= t, t < hi(s)), A(s, t) == f(s, t)), [A(s, t)]))))
            if is_('nVars') or (is_('nEqns') and not full):
                upto('unknowns', i, lambda s, t: g.len(t))
            if is_('sairowptr'):
                upto('shifted', lambda s: i(s) + 1, lambda s, t: sel(g.DS, t), 1)
            if is_('nEqns') and full:
                upto('sizes', i, lambda s, t: CARD(g.EQ(t)))
            if is_('localCentralRow'):
              upto('central', i, lambda s, t: RANK(g.EQ(t), t) if full else sel(m.di, t) - sel(m.rp, t))
              out.append(('central-unset(%s)' % r, lambda s, A=A: forall(lambda t: (implies(z3.And(t >= i(s) + (1 if d > 1 else 0), t < m.n), A(s, t) == -1), [A(s, t)]))))
            if d == 2 and is_('localCentralRow'):
                rk = lambda s: RANK(g.EQ(i(s)), i(s)) if full else sel(m.di, i(s)) - sel(m.rp, i(s))
                seen = lambda s: lc.ivval(s) if full else lc.ivval(s) - sel(m.rp, i(s))
                out.append(('central-at(%s)' % r, lambda s, A=A, rk=rk, seen=seen: A(s, i(s)) == z3.If(rk(s) < seen(s), rk(s), z3.IntVal(-1))))
            if is_('sairowptr', 'bcolptr'):
              out.append(('head(%s)' % r, lambda s, A=A: A(s, 0) == 0))
            if d == 1 and is_('sairowptr'):
                upto('scan-rows', i, lambda s, t: sel(g.NS, t))
                out.append(('rest-rows(%s)' % r, lambda s, A=A: forall(lambda t: (implies(z3.And(lc.ivval(s) <= t, t <= m.n), A(s, t) == sel(g.DS, t)), [A(s, t)]))))
            if d == 1 and is_('bcolptr'):
                upto('scan-unknowns', i, lambda s, t: start(t))
                out.append(('rest-unknowns(%s)' % r, lambda s, A=A: forall(lambda t: (implies(z3.And(lc.ivval(s) <= t, t <= g.nt), A(s, t) == sel(g.DC, t)), [A(s, t)]))))
            if is_('bcolptr'):
              upto('counts', lambda s: T(s) + 1, lambda s, t: sel(g.DC, t), 1)
              out.append(('counts-unset(%s)' % r, lambda s, A=A: forall(lambda t: (implies(z3.And(t > T(s) + (1 if d > 2 else 0), t <= g.nt), A(s, t) == 0), [A(s, t)]))))
            if d > 2 and is_('bcolptr'):
                out.append(('count-at(%s)' % r, lambda s, A=A: A(s, T(s) + 1) == CNT(s) - start(T(s))))
            if is_('bpos'):
                upto('positions', CNT, lambda s, p: sel(g.KP if full else g.OB, p))
            if is_('browind'):
                upto('rows', CNT, lambda s, p: sel(g.RK if full else g.OW, p))
        for k in lc.mods:
            if k[0] == 'h' and k[1].endswith('.__data'):
                rid = k[1][:-len('.__data')]
                ln = lambda s, q, rid=rid: sel(s.heap[rid + '.__len'], q)
                da = lambda s, q, x, rid=rid: sel(sel(s.heap[rid + '.__data'], q), x)
                cur = lambda s: iv(s, 1) - sel(m.rp, i(s))
                cl = lambda s, q: sel(sel(g.LN2, i(s)), q)
                rank = lambda s, q, x: sel(sel(sel(g.RK3, i(s)), q), x)
                if d < 2:
                    continue
                lim = (lambda s: cur(s)) if d == 2 else (lambda s: cur(s) + 1)
                out.append(('local-len(%s)' % rid, lambda s, ln=ln, lim=lim: forall(lambda q: (implies(rng(0, q, lim(s)), ln(s, q) == cl(s, q)), [ln(s, q)]))))
                out.append(('local-done(%s)' % rid, lambda s, da=da: forall(lambda q, x: (implies(z3.And(rng(0, q, cur(s)), rng(0, x, cl(s, q))), da(s, q, x) == rank(s, q, x)), [da(s, q, x)]), 2)))
                if d >= 3:
                    out.append(('local-part(%s)' % rid, lambda s, da=da: forall(lambda x: (implies(z3.And(rng(0, x, cl(s, cur(s))), rank(s, cur(s), x) < iv(s, 2)), da(s, cur(s), x) == rank(s, cur(s), x)), [da(s, cur(s), x)]))))
                if d == 4:
                    out.append(('local-now(%s)' % rid, lambda s, da=da: forall(lambda x: (implies(z3.And(rng(0, x, iv(s, 3) - sel(m.rp, sel(m.ci, iv(s, 1)))), rank(s, cur(s), x) == iv(s, 2)), da(s, cur(s), x) == rank(s, cur(s), x)), [da(s, cur(s), x)]))))
        return out
    return cands


def post_of(full):
    def post(ex, s, fl, val, c):
        m, g = c['m'], c['g']
        o = s.objs[val.id]
        V = {k: s.objs[o[k].id] for k in ('bpos', 'browind', 'bcolptr', 'sairowptr', 'nVars', 'nEqns', 'localCentralRow')}
        a = lambda k, t: sel(s.heap[V[k]['rid']], t)
        start = lambda t: sel(g.BC, t) if full else sel(g.IC, sel(g.BC, t))
        tot = g.np if full else sel(g.IC, g.np)
        ex.oblige(s, z3.And([V[k]['len'] == l for k, l in (('bpos', tot), ('browind', tot), ('bcolptr', g.nt + 1), ('sairowptr', m.n + 1), ('nVars', m.n), ('nEqns', m.n), ('localCentralRow', m.n))]), 'post: lengths of the lists')
        ex.oblige(s, forall(lambda t: implies(z3.And(0 <= t, t <= m.n), a('sairowptr', t) == sel(g.NS, t))), 'post: the unknowns of the rows follow one another')
        ex.oblige(s, forall(lambda t: implies(z3.And(0 <= t, t <= g.nt), a('bcolptr', t) == sel(g.ST, t))), 'post: the couplings of the unknowns follow one another')
        ex.oblige(s, forall(lambda t: implies(rng(0, t, m.n), a('nVars', t) == g.len(t))), 'post: number of unknowns of every row')
        ex.oblige(s, forall(lambda t: implies(rng(0, t, m.n), a('nEqns', t) == (CARD(g.EQ(t)) if full else g.len(t)))), 'post: number of equations of every row')
        ex.oblige(s, forall(lambda t: implies(rng(0, t, m.n), a('localCentralRow', t) == (RANK(g.EQ(t), t) if full else sel(m.di, t) - sel(m.rp, t)))), 'post: place of the equation of the row itself')
        w = 'coupling' if full else 'coupling inside the pattern'
        ex.oblige(s, forall(lambda p: implies(rng(0, p, tot), a('bpos', p) == sel(g.KP if full else g.OB, p))), 'post: every %s names its stored entry' % w)
        ex.oblige(s, forall(lambda p: implies(rng(0, p, tot), a('browind', p) == sel(g.RK if full else g.OW, p))), 'post: every %s names the equation of its column' % w)
        for nm, p, x in (('browptr', m.pbrow, m.rp), ('bcolind', m.pcol, m.ci), ('browendptr', m.pend, m._en)):
            ex.oblige(s, s.heap[p.reg] == x, 'post: matrix unchanged (%s)' % nm)
        lemmas(ex, s, c)
    return post


def lemmas(ex, s, c):
    i, j, x, y = z3.Ints('lem_i lem_j lem_x lem_y')
    A, D = z3.Const('lem_A', AI), z3.Const('lem_D', AI)
    ex.oblige(s, implies(z3.And(0 <= i, i <= j, sel(A, j + 1) == sel(A, j) + sel(D, j), sel(D, j) >= 0, sel(A, i) <= sel(A, j)), sel(A, i) <= sel(A, j + 1)), 'lemma: running totals do not decrease (step)')
    S = z3.Const('lem_S', AIb)
    ex.oblige(s, z3.And(z3.Store(S, x, z3.BoolVal(True))[x], implies(S[y], z3.Store(S, x, z3.BoolVal(True))[y])), 'lemma: a value stays in the set once inserted (base and step)')


def task(full):
    q = 'left_SAI_pattern' if full else 'left_incomplete_SAI_pattern'
    return Task(q, [F, FH], lambda f: f.name == q, setup_of(full), post_of(full), cands_of(full), opts={'frames': False, 'inv_ms': 4000}, budget=700)


TASKS = [task(True), task(False)]
