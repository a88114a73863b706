"""Level schedules: consecutive non-empty groups covering all rows; no stored off-diagonal entry joins two rows of a group."""
import z3
from fw import *
import engine as E
import builtins_cxx

F = 'src/levelschedule.cpp'
AAI = z3.ArraySort(I, AI)
AAB = z3.ArraySort(I, builtins_cxx.AIb)


def setup(b):
    m = srmatrix(b, 'A', 1, 0, kind='raw', diag=True)
    # PAT[i][c]: row i stores an entry in column c; POS[i][c]: its position
    PAT, POS = z3.Const('PAT', AAB), z3.Const('POS', AAI)
    pat, pos = (lambda i, c: sel(sel(PAT, i), c)), (lambda i, c: sel(sel(POS, i), c))
    c = dict(m=m, this=None, args=[b_objptr(m.obj)], pat=pat, pos=pos)
    b.assume(forall(lambda i, x: (implies(pat(i, x), z3.And(rng(0, i, m.n), rng(0, x, m.n), rng(sel(m.rp, i), pos(i, x), sel(m.rp, i + 1)), sel(m.ci, pos(i, x)) == x)), [pat(i, x)]), 2))
    b.assume(forall(lambda i, x: (pat(i, x) == pat(x, i), [pat(i, x)]), 2))                           # structurally symmetric
    b.assume(forall(lambda i: (implies(rng(0, i, m.n), pat(i, i)), [sel(PAT, i)])))                    # full diagonal
    c['sorted'] = lambda i: forall(lambda k, l: (implies(z3.And(rng(0, i, m.n), sel(m.rp, i) <= k, k < l, l < sel(m.rp, i + 1)), sel(m.ci, k) < sel(m.ci, l)), [z3.MultiPattern(sel(m.ci, k), sel(m.ci, l))]), 2)

    def entry(i, j):
        return implies(z3.And(rng(0, i, m.n), rng(sel(m.rp, i), j, sel(m.rp, i + 1))), z3.And(pat(i, sel(m.ci, j)), pos(i, sel(m.ci, j)) == j))

    def inst(lc, s):
        if lc.iv is None:
            return []
        l = [L.ivval(s) for L in lc.outer if L.iv is not None] + [lc.ivval(s)]
        out = []
        if len(l) == 2:
            out += [entry(l[0], l[1]), c['sorted'](l[0])]
        return out
    c['instances'] = inst
    return c


def cands(lc, c):
    m, pat, pos = c['m'], c['pat'], c['pos']
    out = []
    S = lambda s, r: s.heap[r]
    ol = [x for x in lc.outer if x.iv is not None]
    ints = [k for L in lc.outer + [lc] for k in [L.iv] if k is not None]
    for k in lc.mods:
        if k[0] == 'l' and z3.is_expr(lc.entry.env.get(k[1])) and lc.entry.env[k[1]].sort() == I and k[1] not in ints:
            ints.append(k[1])
    val = lambda s, k: s.env[k].i if hasattr(s.env[k], 'at_pos') else s.env[k]
    for k in lc.mods:
        if k[0] != 'h' or lc.entry.heap[k[1]].sort() != AAB:
            continue
        r = k[1]
        M = lambda s, i, x, r=r: sel(sel(s.heap[r], i), x)
        fa = lambda f, M=M: (lambda s: forall(lambda i, x: (implies(rng(0, i, m.n), M(s, i, x) == z3.And(pat(i, x), f(s, i, x))), [M(s, i, x), pat(i, x)]), 2))
        if lc.iv is not None:
            out.append(('filled', fa(lambda s, i, x: i < lc.ivval(s))))
            if ol:
                out.append(('filling', fa(lambda s, i, x: z3.Or(i < ol[-1].ivval(s), z3.And(i == ol[-1].ivval(s), pos(i, x) < lc.ivval(s))))))
                if hasattr(lc.entry.env[lc.iv], 'at_pos'):
                    J = ol[-1].ivval
                    out.append(('at-neighbour', lambda s, J=J: z3.Or(lc.ivval(s) == builtins_cxx.LISTEND, z3.And(pat(J(s), lc.ivval(s)), lc.ivval(s) >= J(s)))))
                    out.append(('removing', fa(lambda s, i, x: z3.Or(x >= i, x > J(s), z3.And(x == J(s), i >= lc.ivval(s))))))
            if not hasattr(lc.entry.env[lc.iv], 'at_pos'):
                out.append(('removed', fa(lambda s, i, x: z3.Or(x >= i, x >= lc.ivval(s)))))
    # the groups so far
    for r in new_regions(lc, I):
        for o, ob in lc.entry.objs.items():
            if ob.get('rid') == r and ('f', o, 'len') in lc.mods:
                ln, h = (lambda s, o=o: s.objs[o]['len']), (lambda s, l, r=r: sel(s.heap[r], l))
                out.append(('groups-first', lambda s, ln=ln, h=h: z3.And(ln(s) >= 1, h(s, 0) == 0)))
                out.append(('groups-grow', lambda s, ln=ln, h=h: forall(lambda l: (implies(z3.And(0 <= l, l + 1 < ln(s)), h(s, l) < h(s, l + 1)), [h(s, l)]))))
                out.append(('groups-independent', lambda s, ln=ln, h=h: forall(lambda l, i, x: (implies(z3.And(0 <= l, l + 1 < ln(s), h(s, l) <= x, x < i, i < h(s, l + 1)), z3.Not(pat(i, x))), [z3.MultiPattern(h(s, l), pat(i, x))]), 3)))
                for k in ints:
                    out.append(('groups-last', lambda s, ln=ln, h=h, k=k: h(s, ln(s) - 1) == val(s, k)))
                    out.append(('groups-number', lambda s, ln=ln, k=k: ln(s) == val(s, k) + 1))
    # rows of the group being collected
    if lc.iv is not None and not any(k[0] == 'h' for k in lc.mods) and not hasattr(lc.entry.env[lc.iv], 'at_pos'):
        a = lc.iv0
        out.append(('independent', lambda s: forall(lambda i, x: (implies(z3.And(a <= x, x < i, i < lc.ivval(s)), z3.Not(pat(i, x))), [pat(i, x)]), 2)))
    return out


def post(ex, s, fl, val, c):
    m, pat, pos = c['m'], c['pat'], c['pos']
    if not isinstance(val, E.ObjRef):
        raise E.Unsupported('the schedule is not a vector')
    o = s.objs[val.id]
    h = s.heap[o['rid']]
    ex.oblige(s, z3.And(o['len'] >= 1, sel(h, 0) == 0, sel(h, o['len'] - 1) == m.n), 'post: the groups cover the rows')
    ex.oblige(s, forall(lambda l: implies(z3.And(0 <= l, l + 1 < o['len']), sel(h, l) < sel(h, l + 1))), 'post: groups are not empty')
    l, i, j = z3.Ints('post_l post_i post_j')
    s2 = s.copy()
    x = sel(m.ci, j)
    s2.assume(z3.And(0 <= l, l + 1 < o['len'], sel(h, l) <= i, i < sel(h, l + 1), rng(0, i, m.n), rng(sel(m.rp, i), j, sel(m.rp, i + 1)), x != i))
    s2.assume(pat(i, x))     # definition of the pattern
    ex.oblige(s2, z3.Or(x < sel(h, l), x >= sel(h, l + 1)), 'post: no stored off-diagonal entry joins two rows of a group')
    for nm, p, a in (('browptr', m.pbrow, m.rp), ('bcolind', m.pcol, m.ci)):
        ex.oblige(s, s.heap[p.reg] == a, 'post: matrix unchanged (%s)' % nm)


TASKS = [Task('computeLevels<double,int>', [F], lambda f: f.qual.endswith('computeLevels<double,int>'), setup, post, cands)]
