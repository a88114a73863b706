"""Cumulative sums: the serial scans and the parallel prefix sum (any length, any number of threads)."""
import z3
from fw import *
import engine as E
import terms
from terms import ipow, ISUM

FS = 'src/helper_algorithms.cpp'
FP = 'src/utils/prefix_sum.cpp'

# ghost: first position of the block containing position p, for blocks of 2^l chunks
BK = z3.Function('BK', I, I, I)


def som(e):
    return z3.simplify(e, som=True)


# ------------------------------------------------------------------------------------------------------ serial scans
def vecarg(b, name):
    n = b.int(name + '_len')
    b.assume(n >= 0)
    return n


def make_vec(b, name, const=False):
    """std::vector<int> with symbolic contents"""
    n = vecarg(b, name)
    rid = b.ex.new_region(b.st, name, I, 1, None, 's')
    o = b.ex.new_obj(b.st, 'std::vector<int>')
    b.st.objs[o.id].update(rid=rid, len=n, et=E.Opaque('int'))
    return o, rid, n


def scan_task(which):
    sel_ = {'vector': lambda f: f.name == 'inclusive_scan' and 'device' not in str(f.node.get('type')) and 'aligned' not in str(f.node.get('type')) and str(f.node['type'].get('qualType')).startswith('void'),
            'device': lambda f: f.name == 'inclusive_scan' and ('device' in str(f.node.get('type')) or 'aligned' in str(f.node.get('type'))),
            'copy': lambda f: f.name == 'inclusive_scan' and not str(f.node['type'].get('qualType')).startswith('void')}[which]

    def setup(b):
        o, rid, n = make_vec(b, 'v')
        return dict(this=None, args=[o], o=o, rid=rid, n=n, a0=b.st.heap[rid])

    def cands(lc, c):
        out = []
        if lc.iv is None:
            return out
        for rid in new_regions(lc):
            def done(s, rid=rid):
                return forall(lambda p: (implies(z3.And(0 <= p, p < c['n'], p < lc.ivval(s)), sel(s.heap[rid], p) == ISUM.z(c['a0'], z3.IntVal(0), p + 1)), [sel(s.heap[rid], p)]))

            def rest(s, rid=rid):
                return forall(lambda p: (implies(z3.And(p >= lc.ivval(s), p < c['n']), sel(s.heap[rid], p) == sel(c['a0'], p)), [sel(s.heap[rid], p)]))

            def prev(s, rid=rid):
                return z3.Implies(z3.And(lc.ivval(s) >= 1, lc.ivval(s) - 1 < c['n']), sel(s.heap[rid], lc.ivval(s) - 1) == ISUM.z(c['a0'], z3.IntVal(0), lc.ivval(s)))
            out += [('done', done), ('rest', rest), ('prev', prev)]
        return out

    def post(ex, s, fl, val, c):
        o = c['o'] if which != 'copy' else val
        d = s.objs[o.id]
        h = s.heap[d['rid']]
        ex.oblige(s, d['len'] == c['n'], 'post: same length')
        ex.oblige(s, forall(lambda p: implies(rng(0, p, c['n']), sel(h, p) == ISUM.z(c['a0'], z3.IntVal(0), p + 1))), 'post: every entry is the sum of all entries up to and including it')
        if which == 'copy':
            ex.oblige(s, z3.And(s.objs[c['o'].id]['len'] == c['n'], s.heap[c['rid']] == c['a0']), 'post: the argument is unchanged')
    return Task('inclusive_scan (%s)' % which, [FS], sel_, setup, post, cands)


# ------------------------------------------------------------------------------------------------------------- power
def power_apply(ex, st, fn, this, vals, n):
    x, e = vals
    if not (z3.is_expr(x) and z3.is_expr(e) and x.sort() == I and e.sort() == I):
        return NotImplemented
    ex.oblige(st, e >= 0, 'precondition of power: exponent not negative', n)
    return ipow(x, z3.simplify(e))


POWER = Contract('power', lambda fn: fn.name == 'power' and len(fn.params) == 2, power_apply)


def power_task():
    def setup(b):
        x, e = b.int('x'), b.int('exponent')
        b.assume(e >= 0, ipow(x, 0) == 1)
        return dict(this=None, args=[x, e], x=x, e=e, instances=lambda lc, s: [ipow(x, lc.ivval(s) + 1) == ipow(x, lc.ivval(s)) * x] if lc.iv else [])

    def cands(lc, c):
        if lc.iv is None:
            return []
        return [('pow(%s)' % nm, lambda s, get=get: get(s) == ipow(c['x'], lc.ivval(s))) for nm, get in int_cells(lc)]

    def post(ex, s, fl, val, c):
        ex.oblige(s, val == ipow(c['x'], c['e']), 'post: the power')
    return Task('power', [FP], lambda f: f.name == 'power' and f.targs == ['int'] or f.name == 'power' and 'int' in f.qual, setup, post, cands)


# -------------------------------------------------------------------------------------------------------- prefix sum
def prefix_task():
    def setup(b):
        n = b.int('num_entries')
        cap = z3.If(n > 0, n, z3.IntVal(0))
        p = b.iarr('counts', cap)
        c = dict(this=None, args=[p, n], n=n, rid=p.reg, c0=b.heap(p), ex=b.ex)
        c['instances'] = lambda lc, s: facts(lc, s, c)
        b.ex.pair_hook = lambda ctx, st, i1, i2: pairs(ctx, st, i1, i2, c)
        return c

    def width(c, lc):
        """chunk length: the quotient by the number of threads the code uses"""
        ex = c['ex']
        vals = [str(som(v)) for v in lc.entry.env.values() if z3.is_expr(v) and v.sort() == I]
        for x, y, q in ex.divs.values():
            if ex.nthreads is not None and y.eq(ex.nthreads):
                for W in (q + 1, q):
                    if str(som(W)) in vals:
                        return W
        return None

    def role(lc):
        ls = [x for x in lc.outer if x.iv is not None] + ([lc] if lc.iv is not None else [])
        if not ls:
            return None, []
        return ('chunk' if str(ls[0].iv[1]).startswith('__tid') else 'merge'), ls

    def block(l, a, H):
        """positions a+1..a+H form one block of level l"""
        return forall(lambda p: (z3.And(implies(z3.And(a < p, p <= a + H), BK(l, p) == a), implies(z3.And(1 <= p, p <= a), BK(l, p) + H <= a),
                                        implies(p > a + H, BK(l, p) >= a + H)), [BK(l, p)]))

    def facts(lc, s, c):
        W = width(c, lc)
        kind, ls = role(lc)
        if W is None or kind is None:
            return []
        T, n = c['ex'].nthreads, c['n']
        out = [ipow(2, 0) == 1]
        zero = z3.IntVal(0)
        if kind == 'chunk':
            t = ls[0].ivval(s)
            for tt in (t, t + 1):
                out.append(block(zero, som(tt * W), W))
            out.append(implies(t <= T, som(t * W) <= som(T * W)))
            out.append(implies(t >= T, som(t * W) >= som(T * W)))
            return out
        l = ls[0].ivval(s)
        f0, f1 = ipow(2, l), ipow(2, l + 1)
        H0, H1 = som(f0 * W), som(f1 * W)
        out += [f1 == 2 * f0, f0 >= 1, H1 == 2 * H0, H0 >= 1, block(l, zero, H0), block(l + 1, zero, H1),
                implies(T <= f0, som(T * W) <= H0), implies(l == 0, H0 == W)]
        if len(ls) > 1:
            it = ls[1].ivval(s)
            a = som(it * H1)
            out += [block(l + 1, a, H1), block(l, a, H0), block(l, som(a + H0), H0), implies(it >= 0, a >= 0), som((it + 1) * H1) == a + H1,
                    implies(T <= f1 * it, som(T * W) <= a), implies(it == 0, a == 0)]
            mid = som(a + H0)
            out.append(forall(lambda z: (implies(z >= mid, ISUM.f(c['c0'], a, z) == ISUM.f(c['c0'], a, mid) + ISUM.f(c['c0'], mid, z)), [ISUM.f(c['c0'], mid, z)])))
            out.append(forall(lambda z: (implies(z >= mid, ISUM.f(c['c0'], a, z) == ISUM.f(c['c0'], a, mid) + ISUM.f(c['c0'], mid, z)), [ISUM.f(c['c0'], a, z)])))
        return out

    def pairs(ctx, st, i1, i2, c):
        W = width(c, ctx)
        kind, ls = role(ctx)
        if W is None or kind is None:
            return []
        H = W
        out = []
        if kind == 'merge' and len(ls) > 1:
            l = ls[0].ivval(st)
            H = som(ipow(2, l + 1) * W)
            out += [H >= 2, ipow(2, l + 1) >= 2, H == 2 * som(ipow(2, l) * W)]
        for x, y in ((i1, i2), (i2, i1)):
            out += [implies(x < y, som(x * H) + H <= som(y * H)), som((x + 1) * H) == som(x * H) + H]
        return out

    def cands(lc, c):
        W = width(c, lc)
        kind, ls = role(lc)
        if W is None or kind is None or lc.iv is None:
            return []
        n, c0, rid = c['n'], c['c0'], c['rid']
        out = []
        zero = z3.IntVal(0)

        def split(s, done, inner, outer):
            return forall(lambda p: (implies(z3.And(1 <= p, p < n), sel(s.heap[rid], p) == z3.If(done(s, p), inner(s, p), outer(s, p))), [sel(s.heap[rid], p)]))
        sm = lambda l: (lambda s, p: ISUM.f(c0, BK(l(s), p), p))
        if kind == 'chunk':
            t = lambda s: ls[0].ivval(s)
            if len(ls) == 1:
                out.append(('chunks', lambda s: split(s, lambda s, p: p <= som(t(s) * W), sm(lambda s: zero), lambda s, p: sel(c0, p))))
                out.append(('first', lambda s: sel(s.heap[rid], 0) == sel(c0, 0)))
            else:
                out.append(('chunk', lambda s: split(s, lambda s, p: p < lc.ivval(s), sm(lambda s: zero), lambda s, p: sel(c0, p))))
                out.append(('first', lambda s: sel(s.heap[rid], 0) == sel(c0, 0)))
                for nm, get in int_cells(lc):
                    out.append(('partial', lambda s, get=get: implies(som(t(s) * W) < n, get(s) == ISUM.f(c0, som(t(s) * W), lc.ivval(s)))))
        else:
            l = lambda s: ls[0].ivval(s)
            l1 = lambda s: ls[0].ivval(s) + 1
            out.append(('zero', lambda s: sel(s.heap[rid], 0) == 0))
            if len(ls) == 1:
                out.append(('level', lambda s: split(s, lambda s, p: z3.BoolVal(True), sm(l), sm(l))))
            elif len(ls) == 2:
                out.append(('merged', lambda s: split(s, lambda s, p: p <= som(ls[1].ivval(s) * ipow(2, l1(s)) * W), sm(l1), sm(l))))
            else:
                out.append(('merging', lambda s: split(s, lambda s, p: p < lc.ivval(s), sm(l1), sm(l))))
        return out

    def post(ex, s, fl, val, c):
        n, c0 = c['n'], c['c0']
        h = s.heap[c['rid']]
        ex.oblige(s, implies(n >= 1, sel(h, 0) == 0), 'post: the first entry is zero')
        ex.oblige(s, forall(lambda p: implies(rng(1, p, n), sel(h, p) == ISUM.z(c0, z3.IntVal(0), p))), 'post: every entry is the sum of all entries before it')
    return Task('prefix_sum', [FP], lambda f: f.name == 'prefix_sum', setup, post, cands, opts={'par': 'sync'}, modular=[POWER], budget=400)


TASKS = [scan_task('vector'), scan_task('device'), scan_task('copy'), power_task(), prefix_task()]
