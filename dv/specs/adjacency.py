"""Column adjacency lists: every stored entry of a column, once, in increasing position, with its row."""
import z3
from fw import *
import engine as E
import terms

F = 'src/adjacency.cpp'
# number of entries of a column among a range of positions
COLCNT = terms.SumFn('colcount', [AI, I], lambda ci, c, j: z3.If(sel(ci, j) == c, z3.IntVal(1), z3.IntVal(0)), 'i')
Z = z3.IntVal(0)


def ghosts(b, m):
    """PT[c] = number of entries in earlier columns; for every output slot q: CO[q] its column, RL[q] the position and RR[q] the row of the entry listed there.
    The slot of position j of column c is PT[c] + (number of earlier entries of column c): distinct positions have distinct slots, so RL and RR exist."""
    g = {k: z3.Const(k, AI) for k in ('PT', 'CO', 'RL', 'RR')}
    PT, CO = g['PT'], g['CO']
    b.assume(sel(PT, 0) == 0, sel(PT, m.n) == m.nnz)
    b.assume(forall(lambda c: (implies(z3.And(0 <= c, c <= m.n), z3.And(0 <= sel(PT, c), sel(PT, c) <= m.nnz)), [sel(PT, c)])))
    b.assume(forall(lambda q: (implies(rng(0, q, m.nnz), z3.And(rng(0, sel(CO, q), m.n), sel(PT, sel(CO, q)) <= q, q < sel(PT, sel(CO, q) + 1), sel(PT, sel(CO, q) + 1) == sel(PT, sel(CO, q)) + COLCNT.z(m.ci, sel(CO, q), Z, m.nnz))), [sel(CO, q)])))
    return g


def dcol(m, g, c):
    return implies(rng(0, c, m.n), z3.And(sel(g['PT'], c + 1) == sel(g['PT'], c) + COLCNT.z(m.ci, c, Z, m.nnz), COLCNT.z(m.ci, c, Z, m.nnz) >= 0))


def dpos(m, g, i, j):
    c = sel(m.ci, j)
    q = sel(g['PT'], c) + COLCNT.z(m.ci, c, Z, j)
    return implies(z3.And(rng(0, i, m.n), rng(sel(m.rp, i), j, sel(m.rp, i + 1))), z3.And(
        sel(g['CO'], q) == c, sel(g['RL'], q) == j, sel(g['RR'], q) == i, 0 <= COLCNT.z(m.ci, c, Z, j), COLCNT.z(m.ci, c, Z, j + 1) <= COLCNT.z(m.ci, c, Z, m.nnz), dcol(m, g, c)))


def lemmas(ex, s, m, g):
    c, j, k, h = z3.Ints('lem_c lem_j lem_k lem_h')
    C = lambda e, c=c: COLCNT.z(m.ci, c, Z, e)
    ex.oblige(s, z3.And(C(Z) == 0, implies(z3.And(0 <= k, C(k) >= 0), C(k + 1) >= 0)), 'lemma: counts are not negative (base and step)')
    ex.oblige(s, implies(z3.And(0 <= k, k <= h), implies(C(k) <= C(h), C(k) <= C(h + 1))), 'lemma: counts grow with the range (step)')
    # PTJ(c, j) = entries among the first j positions in columns before c; induction over c inside induction over j
    PTJ = z3.Function('PTJ', I, I, I)
    d = lambda j: z3.And(PTJ(0, j) == 0, PTJ(c + 1, j) == PTJ(c, j) + C(j))
    ind = lambda c: z3.If(sel(m.ci, j) < c, z3.IntVal(1), z3.IntVal(0))
    ex.oblige(s, implies(z3.And(0 <= c, 0 <= j, d(j), d(j + 1), PTJ(c, j + 1) == PTJ(c, j) + ind(c)), PTJ(c + 1, j + 1) == PTJ(c + 1, j) + ind(c + 1)), 'lemma: one more position adds one to the columns after its own (step over columns)')
    ex.oblige(s, implies(z3.And(rng(0, j, m.nnz), d(j), d(j + 1)), z3.And(PTJ(0, j + 1) == PTJ(0, j) + ind(Z), ind(m.n) == 1)), 'lemma: one more position adds one to the columns after its own (base, and total)')


def adjacency():
    def setup(b):
        m = srmatrix(b, 'A', 1, 0, kind='storage', const=False)
        this = b.ex.new_obj(b.st, 'blasted::ColumnAdjacency<double,int>', {})
        b.ex.default_fields(b.st, b.ex.record('blasted::ColumnAdjacency<double,int>'), this)
        c = dict(m=m, this=this, args=[m.obj], g=ghosts(b, m))
        c['instances'] = insts(c)
        return c

    def insts(c):
        m, g = c['m'], c['g']

        def f(lc, s):
            if lc.iv is None:
                return []
            l = [L.ivval(s) for L in lc.outer if L.iv is not None] + [lc.ivval(s)]
            out = [dcol(m, g, x) for x in (l[-1] - 1, l[-1], sel(m.ci, l[-1]))]
            if len(l) >= 2:
                out.append(dpos(m, g, l[-2], l[-1]))
            return out
        return f

    def cands(lc, c):
        m, g = c['m'], c['g']
        if lc.iv is None:
            return []
        out = []
        ol = [x for x in lc.outer if x.iv is not None]
        done = [('pos', lambda s: lc.ivval(s))] if ol else [('row', lambda s: sel(m.rp, lc.ivval(s))), ('pos', lambda s: lc.ivval(s))]
        PT = g['PT']
        for r in new_regions(lc):
            h = lambda s, r=r: s.heap[r]
            for dn, d in done:
                for sh in (0, 1):
                    out.append(('count%d-%s(%s)' % (sh, dn, r), lambda s, h=h, d=d, sh=sh: forall(lambda t: (implies(rng(sh, t, m.n + sh), sel(h(s), t) == COLCNT.z(m.ci, t - sh, Z, d(s))), [sel(h(s), t)]))))
                for G in ('RL', 'RR'):
                    out.append(('%s-%s(%s)' % (G, dn, r), lambda s, h=h, d=d, G=G: forall(lambda q: (implies(z3.And(rng(0, q, m.nnz), q < sel(PT, sel(g['CO'], q)) + COLCNT.z(m.ci, sel(g['CO'], q), Z, d(s))),
                                                                                                  sel(h(s), q) == sel(g[G], q)), [sel(h(s), q)]))))
            out.append(('head(%s)' % r, lambda s, h=h: sel(h(s), 0) == 0))
            if not ol:
                out.append(('scan(%s)' % r, lambda s, h=h: forall(lambda t: (implies(z3.And(0 <= t, t < lc.ivval(s)), sel(h(s), t) == sel(PT, t)), [sel(h(s), t)]))))
                out.append(('rest(%s)' % r, lambda s, h=h: forall(lambda t: (implies(z3.And(lc.ivval(s) <= t, t <= m.n), sel(h(s), t) == COLCNT.z(m.ci, t - 1, Z, m.nnz)), [sel(h(s), t)]))))
        return out

    def post(ex, s, fl, val, c):
        m, g = c['m'], c['g']
        o = s.objs[c['this'].id]
        V = {k: s.objs[o[k].id] for k in ('ptrs', 'col_rows', 'rows_loc')}
        h = lambda k: s.heap[V[k]['rid']]
        ex.oblige(s, z3.And(V['ptrs']['len'] == m.n + 1, V['col_rows']['len'] == m.nnz, V['rows_loc']['len'] == m.nnz), 'post: lengths')
        ex.oblige(s, forall(lambda t: implies(z3.And(0 <= t, t <= m.n), sel(h('ptrs'), t) == sel(g['PT'], t))), 'post: the lists of the columns follow one another')
        for k, G in (('rows_loc', 'RL'), ('col_rows', 'RR')):
            ex.oblige(s, forall(lambda q: implies(rng(0, q, m.nnz), sel(h(k), q) == sel(g[G], q))), 'post: every slot holds the entry that belongs there (%s)' % k)
        for nm, a in (('browptr', m.rp), ('bcolind', m.ci)):
            p = {'browptr': m.pbrow, 'bcolind': m.pcol}[nm]
            ex.oblige(s, s.heap[p.reg] == a, 'post: matrix unchanged (%s)' % nm)
        lemmas(ex, s, m, g)
    return Task('ColumnAdjacency<double,int>::compute', [F, 'src/helper_algorithms.cpp'], lambda f: f.name == 'compute' and 'ColumnAdjacency' in f.qual, setup, post, cands)


TASKS = [adjacency()]
