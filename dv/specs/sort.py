"""Sorting the inner dimension of one row: columns and their blocks."""
import z3
from fw import *
import engine as E
import terms

F = 'src/helper_algorithms.cpp'
# ghost: original position of a column index
ORIG = z3.Function('ORIG', I, I)


def max_element(ex, st, f, args, n):
    """trusted contract of std::max_element on an int array: a position of a largest element"""
    from builtins_cxx import rvn
    if len(args) != 2:
        return NotImplemented
    a, b = rvn(ex, st, args[0]), rvn(ex, st, args[1])
    if not (isinstance(a, E.Ptr) and isinstance(b, E.Ptr) and a.reg == b.reg and a.reg and st.regs[a.reg].sort == I):
        return NotImplemented
    ex.oblige(st, z3.And(a.off >= 0, a.off <= b.off, b.off <= st.regs[a.reg].len), 'precondition of max_element: range inside the array', n)
    v = fresh('maxpos')
    h = st.heap[a.reg]
    st.assume(z3.Or(z3.And(a.off >= b.off, v == b.off), z3.And(rng(a.off, v, b.off),
                                                               forall(lambda t: (implies(rng(a.off, t, b.off), sel(h, t) <= sel(h, v)), [sel(h, t)])))))
    return E.Ptr(a.reg, v, a.es, a.et)


def pairs(s, c, ci, va):
    """every (column, block) pair is one of the original pairs"""
    el = (lambda a, j, q: sel(a, j)) if c['bs'] == 1 else (lambda a, j, q: terms.elem(sel(a, j), q))
    N = c['N']
    out = [('orig', forall(lambda k: (implies(rng(0, k, N), z3.And(rng(0, ORIG(sel(s.heap[ci], k)), N), sel(c['ci0'], ORIG(sel(s.heap[ci], k))) == sel(s.heap[ci], k))),
                                      [sel(s.heap[ci], k)])))]
    if c['bs'] == 1:
        out.append(('vals', forall(lambda k: (implies(rng(0, k, N), sel(s.heap[va], k) == sel(c['va0'], ORIG(sel(s.heap[ci], k)))), [sel(s.heap[va], k)]))))
    else:
        out.append(('vals', forall(lambda k, q: (implies(z3.And(rng(0, k, N), rng(0, q, c['bs'] ** 2)),
                                                         terms.elem(sel(s.heap[va], k), q) == terms.elem(sel(c['va0'], ORIG(sel(s.heap[ci], k))), q)),
                                                 [terms.elem(sel(s.heap[va], k), q)]), 2)))
    return out


def distinct(a, N):
    return forall(lambda k, l: (implies(z3.And(0 <= k, k < l, l < N), sel(a, k) != sel(a, l)), [z3.MultiPattern(sel(a, k), sel(a, l))]), 2)


def increasing(a, lo, N):
    """positions from lo on hold larger and larger values, all above everything before"""
    return forall(lambda k, l: (implies(z3.And(0 <= k, k < l, l >= lo, l < N), sel(a, k) < sel(a, l)), [z3.MultiPattern(sel(a, k), sel(a, l))]), 2)


def task(bs):
    q = 'sortBlockInnerDimension<double,int,%d>' % bs

    def setup(b):
        N = b.int('N')
        b.assume(N >= 0)
        ci = b.iarr('colind', N)
        va = b.farr('vals', N, bs * bs, 0)
        c = dict(this=None, args=[N, ci, va], N=N, ci=ci.reg, va=va.reg, ci0=b.heap(ci), va0=b.heap(va), bs=bs)
        b.assume(distinct(c['ci0'], N))
        b.assume(forall(lambda k: (implies(rng(0, k, N), ORIG(sel(c['ci0'], k)) == k), [sel(c['ci0'], k)])))
        return c

    def cands(lc, c):
        if lc.iv is None:
            return []
        N = c['N']
        out = []
        for nm in [x for x, _ in pairs(lc.entry, c, c['ci'], c['va'])]:
            out.append((nm, lambda s, nm=nm: dict(pairs(s, c, c['ci'], c['va']))[nm]))
        if c['bs'] > 4 and lc.outer and lc.ivstep == 1:
            # component loops over a block
            b2 = c['bs'] ** 2
            e0 = lc.entry.heap[c['va']]
            el = lambda h, x, q: terms.elem(sel(h, x), q)
            o = [x for x in lc.outer if x.iv is not None][-1].ivval(lc.entry)
            if ('h', c['va']) in lc.mods:
                xs = list(lc.invariant_indices(lc.mods[('h', c['va'])]) or [])
                for a in xs:
                    for b in xs:
                        def sw(s, a=a, b=b):
                            h = s.heap[c['va']]
                            return forall(lambda q: (implies(rng(0, q, b2), el(h, a, q) == z3.If(q < lc.ivval(s), el(e0, b, q), el(e0, a, q))), [el(h, a, q)]))
                        out.append(('swapped', sw))
            for rid in new_regions(lc, R, 1):
                for x in (N - 1 - o, o):
                    out.append(('saved', lambda s, rid=rid, x=x: forall(lambda q: (implies(rng(0, q, lc.ivval(s)), sel(s.heap[rid], q) == el(e0, z3.simplify(x), q)), [sel(s.heap[rid], q)]))))
        out.append(('distinct', lambda s: distinct(s.heap[c['ci']], N)))
        out.append(('sorted-tail', lambda s: increasing(s.heap[c['ci']], N - lc.ivval(s) + lc.iv0, N)))
        out.append(('sorted-tail1', lambda s: increasing(s.heap[c['ci']], lc.ivval(s) + 1, N)))
        return out

    def post(ex, s, fl, val, c):
        N = c['N']
        ex.oblige(s, increasing(s.heap[c['ci']], z3.IntVal(0), N), 'post: columns are strictly increasing')
        for nm, f in pairs(s, c, c['ci'], c['va']):
            ex.oblige(s, f, 'post: every (column, block) pair is one of the original ones' + (' (columns)' if nm == 'orig' else ' (blocks)'))
    return Task(q, [F], lambda f: f.name == 'sortBlockInnerDimension' and f.qual.endswith(q.split('<')[1]), setup, post, cands, opts={'functions': {'max_element': max_element}, **({'unroll': 20} if bs > 4 else {})}, budget=300)


TASKS = [task(b) for b in (1, 2, 4, 5, 7)]
