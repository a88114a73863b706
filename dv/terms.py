"""Numeric terms.

Floating-point scalars, bs x bs blocks and bs-segments are all interpreted over the sort Real: addition, subtraction and
rational scaling are interpreted, every product is an uninterpreted function over a canonical (distributed) polynomial:
  smul  scalar*scalar (commutative)      scal  scalar*block-or-segment     mmul  block*block / block*segment (ordered)
Linear equational reasoning over Real is complete for any Q-vector space, so one sort is enough.  Rounding is NOT modelled.
"""
import z3
z3.set_param('warning', False)
from fractions import Fraction

R = z3.RealSort()
I = z3.IntSort()
smul = z3.Function('smul', R, R, R)
scal = z3.Function('scal', R, R, R)
mmul = z3.Function('mmul', R, R, R)
sinv = z3.Function('sinv', R, R)
minv = z3.Function('minv', R, R)
ssqrt = z3.Function('ssqrt', R, R)
elem = z3.Function('elem', R, I, R)        # component of a block / segment, flat index in storage order
upd = z3.Function('upd', R, I, R, R)
had = z3.Function('had', R, R, R)           # componentwise product
fabs_ = z3.Function('fabs', R, R)

ipow = z3.Function('ipow', I, I, I)         # integer power

_fresh = [0]
_tags = {}
_keep = []


def fresh(name, sort=I):
    _fresh[0] += 1
    return z3.Const('%s!%d' % (name, _fresh[0]), sort)


def tagof(e):
    """stable sort key of an atom: its head symbol / array base name"""
    i = e.get_id()
    if i in _tags:
        return _tags[i]
    d = e.decl()
    if d.kind() == z3.Z3_OP_SELECT:
        a = e.arg(0)
        while a.num_args() > 0 and a.decl().kind() == z3.Z3_OP_STORE:
            a = a.arg(0)
        t = 'sel:' + (str(a.decl().name()) if a.num_args() == 0 else str(a.decl().kind()))
        t = t.split('!')[0]
    else:
        t = 'f:' + d.name().split('!')[0]
    _tags[i] = t
    _keep.append(e)
    return t


_atoms = {}


def _atom(e):
    i = e.get_id()
    if i not in _atoms:
        _atoms[i] = e
    return i


class Num:
    __slots__ = ('k', 'p', '_z')

    def __init__(self, k, p):
        self.k = k      # 's' scalar, 'm' block/segment
        self.p = p      # {(scalar atoms tuple, ordered block atoms tuple): Fraction}
        self._z = None

    @staticmethod
    def const(c, k='s'):
        c = Fraction(c)
        return Num(k, {((), ()): c} if c != 0 else {})

    @staticmethod
    def zero(k):
        return Num(k, {})

    @staticmethod
    def atom(e, k):
        i = _atom(e)
        return Num(k, {((i,), ()): Fraction(1)} if k == 's' else {((), (i,)): Fraction(1)})

    def isconst(self):
        return self.k == 's' and (not self.p or list(self.p.keys()) == [((), ())])

    def constval(self):
        return self.p.get(((), ()), Fraction(0))

    def __add__(self, o):
        assert self.k == o.k or not self.p or not o.p, 'adding block and scalar'
        p = dict(self.p)
        for m, c in o.p.items():
            v = p.get(m, 0) + c
            if v == 0:
                p.pop(m, None)
            else:
                p[m] = v
        return Num('m' if 'm' in (self.k, o.k) else 's', p)

    def __neg__(self):
        return Num(self.k, {m: -c for m, c in self.p.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        p = {}
        for (s1, m1), c1 in self.p.items():
            for (s2, m2), c2 in o.p.items():
                m = (tuple(sorted(s1 + s2, key=lambda i: (tagof(_atoms[i]), i))), m1 + m2)
                v = p.get(m, 0) + c1 * c2
                if v == 0:
                    p.pop(m, None)
                else:
                    p[m] = v
        return Num('m' if 'm' in (self.k, o.k) else 's', p)

    def z(self):
        if self._z is None:
            ts = []
            for (s, m), c in sorted(self.p.items()):
                if not s and not m:
                    t = None
                else:
                    st = mt = None
                    for a in s:
                        st = _atoms[a] if st is None else smul(st, _atoms[a])
                    for a in reversed(m):
                        mt = _atoms[a] if mt is None else mmul(_atoms[a], mt)
                    t = st if mt is None else (mt if st is None else scal(st, mt))
                cf = z3.RealVal(c)
                ts.append(cf if t is None else (t if c == 1 else cf * t))
            self._z = z3.RealVal(0) if not ts else (ts[0] if len(ts) == 1 else z3.Sum(ts))
            self._z = z3.simplify(self._z)
        return self._z

    def __repr__(self):
        return 'Num%s(%s)' % (self.k, self.z())


_parse = {}


def num(e, k):
    """parse a z3 Real term back into a polynomial"""
    if isinstance(e, Num):
        return e
    key = (e.get_id(), k)
    if key in _parse:
        return _parse[key][1]
    r = _num(e, k)
    _parse[key] = (e, r)
    return r


def _num(e, k):
    if z3.is_rational_value(e):
        return Num.const(e.as_fraction(), k)
    if z3.is_app(e):
        kd = e.decl().kind()
        ch = e.children()
        if kd == z3.Z3_OP_ADD:
            r = Num.zero(k)
            for c in ch:
                r = r + num(c, k)
            return r
        if kd == z3.Z3_OP_SUB:
            r = num(ch[0], k)
            for c in ch[1:]:
                r = r - num(c, k)
            return r
        if kd == z3.Z3_OP_UMINUS:
            return -num(ch[0], k)
        if kd == z3.Z3_OP_MUL and z3.is_rational_value(ch[0]) and len(ch) == 2:
            return Num.const(ch[0].as_fraction()) * num(ch[1], k)
        if e.decl().eq(smul) and k == 's':
            return num(ch[0], 's') * num(ch[1], 's')
        if e.decl().eq(scal) and k == 'm':
            return num(ch[0], 's') * num(ch[1], 'm')
        if e.decl().eq(mmul) and k == 'm':
            return num(ch[0], 'm') * num(ch[1], 'm')
    return Num.atom(e, k)


def recip(n):
    if n.isconst() and n.constval() != 0:
        return Num.const(1 / n.constval())
    # 1/(1/x) and monomials: keep it simple, only single-atom folding
    return Num.atom(sinv(n.z()), 's')


def blkinv(n):
    return Num.atom(minv(n.z()), 'm')


sabs = z3.Function('sabs', R, R)


def component(n, r):
    """component r (flat) of a block-valued polynomial, distributed over sums"""
    if n.k == 's':
        return n        # 1x1 block
    if not z3.is_expr(r):
        r = z3.IntVal(r)
    out = Num.zero('s')
    for (s, m), c in n.p.items():
        t = None
        for a in reversed(m):
            t = _atoms[a] if t is None else mmul(_atoms[a], t)
        d = t.decl()
        if d.eq(upd):
            e = z3.simplify(z3.If(t.arg(1) == r, t.arg(2), component(num(t.arg(0), 'm'), r).z()))
            e = num(e, 's')
        elif d.name().startswith('mk') and z3.is_int_value(r) and t.num_args() > 1:
            e = num(t.arg(r.as_long()), 's')
        elif d.eq(had):
            e = component(num(t.arg(0), 'm'), r) * component(num(t.arg(1), 'm'), r)
        else:
            e = Num.atom(elem(t, r), 's')
        out = out + Num('s', {(s, ()): c}) * e
    return out


def reassemble(comps):
    """block whose components are the given scalars; recognises componentwise-linear combinations of blocks"""
    res = None
    for r, v in enumerate(comps):
        p = {}
        ok = True
        for (s, m), c in v.p.items():
            el = [a for a in s if _atoms[a].decl().eq(elem) and z3.is_int_value(_atoms[a].arg(1))
                  and _atoms[a].arg(1).as_long() == r]
            rest = tuple(a for a in s if a not in el)
            if len(el) == 1:
                x = num(_atoms[el[0]].arg(0), 'm')
            elif len(el) == 2:
                x, y = sorted([_atoms[e].arg(0) for e in el], key=lambda t: (tagof(t), t.get_id()))
                x = Num.atom(had(x, y), 'm')
            else:
                ok = False
                break
            q = Num('s', {(rest, ()): c}) * x
            for k2, c2 in q.p.items():
                p[k2] = p.get(k2, 0) + c2
        if not ok:
            return None
        p = {k: c for k, c in p.items() if c != 0}
        if res is None:
            res = p
        elif res != p:
            return None
    return Num('m', res)


def mkblk(rows, cols, vals):
    x = reassemble([num(v, 's') for v in vals])
    if x is not None:
        return x.z()
    return mkraw(rows, cols, vals)


def mkraw(rows, cols, vals):
    MKS.add('mk%dx%d' % (rows, cols))
    f = z3.Function('mk%dx%d' % (rows, cols), *([R] * (rows * cols) + [R]))
    return f(*[v.z() if isinstance(v, Num) else v for v in vals])


# ---------------------------------------------------------------------------------------------------------- sums
class SumFn:
    """Sum_{j in [lo,hi)} term(args, j); args = z3 arrays / ints / reals.  The recursive definition and the extensionality
    lemma (both proved sound by induction on hi; see lemma_selfcheck) are instantiated on ground terms only."""
    reg = {}

    def __init__(self, name, sorts, term, kind):
        self.name, self.sorts, self.term_, self.kind = name, sorts, term, kind
        self.f = z3.Function(name, *(list(sorts) + [I, I, I if kind == 'i' else R]))
        SumFn.reg[name] = self

    def __call__(self, *a):
        args, lo, hi = a[:-2], a[-2], a[-1]
        if self.kind == 'i':
            return self.f(*(list(args) + [lo, hi]))
        return Num.atom(self.f(*(list(args) + [lo, hi])), 's' if self.kind == 'p' else self.kind)

    def z(self, *a):
        r = self(*a)
        return r if self.kind == 'i' else r.z()

    def unit(self):
        """value over an empty range"""
        return 1 if self.kind == 'p' else 0

    def comb(self, a, t):
        """fold one more term"""
        if self.kind == 'p':
            return (Num.atom(a, 's') * num(t, 's')).z()
        return a + t

    def term(self, args, j):
        t = self.term_(*(list(args) + [j]))
        return t.z() if isinstance(t, Num) else t


_ground = {}


def is_ground(e):
    i = e.get_id()
    if i in _ground:
        return _ground[i][1]
    if z3.is_var(e):
        r = False
    elif z3.is_quantifier(e):
        r = False
    else:
        r = all(is_ground(c) for c in e.children())
    _ground[i] = (e, r)
    return r


_pocc = {}


def prodapps(e):
    """ground product terms with a sum as a direct argument"""
    i = e.get_id()
    if i in _pocc:
        return _pocc[i][1]
    out = {}
    if z3.is_quantifier(e):
        out.update(prodapps(e.body()))
    elif z3.is_app(e):
        for c in e.children():
            out.update(prodapps(c))
        if e.num_args() == 2 and e.decl().name() in ('smul', 'scal', 'mmul') and \
                any(c.decl().name() in SumFn.reg and SumFn.reg[c.decl().name()].kind in 'sm' and c.num_args() > 0 for c in e.children() if z3.is_app(c)) and is_ground(e):
            out[e.get_id()] = e
    _pocc[i] = (e, out)
    return out


_occ = {}


def sumapps(e):
    """set of SumFn application terms occurring in e (including below quantifiers)"""
    i = e.get_id()
    if i in _occ:
        return _occ[i][1]
    out = {}
    if z3.is_quantifier(e):
        out.update(sumapps(e.body()))
    elif z3.is_app(e):
        for c in e.children():
            out.update(sumapps(c))
        if e.decl().name() in SumFn.reg and e.num_args() > 0:
            out[e.get_id()] = e
    _occ[i] = (e, out)
    return out


def lemma_instances(formulas, rounds=1):
    """ground instances of the definition and extensionality lemmas for every sum term occurring in the formulas"""
    facts, done_def, done_ext = [], set(), set()
    cur = list(formulas)
    allapps = {}
    for f in cur:
        allapps.update(sumapps(f))
    ground = {i: a for i, a in allapps.items() if is_ground(a)}
    byf = {}
    for a in allapps.values():
        byf.setdefault(a.decl().name(), []).append(a)
    for name, apps in byf.items():
        S = SumFn.reg[name]
        na = len(S.sorts)
        arrpos = [p for p, s in enumerate(S.sorts) if s.kind() == z3.Z3_ARRAY_SORT]
        # array tuples (ground) seen anywhere
        tup = {}
        for a in apps:
            t = tuple(a.arg(p) for p in arrpos)
            if all(is_ground(x) for x in t):
                tup[tuple(x.get_id() for x in t)] = t
        g = [a for a in apps if is_ground(a)]
        seen = set()
        for a in g:
            rest = tuple(a.arg(p) for p in range(na) if p not in arrpos) + (a.arg(na), a.arg(na + 1))
            rk = tuple(x.get_id() for x in rest)
            if rk in seen:
                continue
            seen.add(rk)
            variants = []
            for t in tup.values():
                args = [None] * na
                for q, p in enumerate(arrpos):
                    args[p] = t[q]
                ri = 0
                for p in range(na):
                    if args[p] is None:
                        args[p] = rest[ri]
                        ri += 1
                variants.append(args)
            lo, hi = rest[-2], rest[-1]
            for v in variants:
                facts.append(z3.Implies(hi <= lo, S.f(*(v + [lo, hi])) == S.unit()))
            # definition unfolded once at both ends, only for variants that occur (limit size)
            if len(variants) <= 12:
                for v in variants:
                    h1 = z3.simplify(hi - 1)
                    facts.append(z3.Implies(lo < hi, S.f(*(v + [lo, hi])) == S.comb(S.f(*(v + [lo, h1])), S.term(v, h1))))
                    if S.kind == 'i':
                        facts.append(z3.Implies(h1 <= lo, S.f(*(v + [lo, h1])) == 0))
                for x in range(len(variants)):
                    for y in range(x + 1, len(variants)):
                        w = fresh('w_' + name)
                        facts.append(z3.Or(S.f(*(variants[x] + [lo, hi])) == S.f(*(variants[y] + [lo, hi])),
                                           z3.And(lo <= w, w < hi, S.term(variants[x], w) != S.term(variants[y], w))))
        # two ranges with the same start: zero tail, monotone tail (integer counts)
        groups = {}
        for a in g:
            groups.setdefault(tuple(a.arg(p).get_id() for p in range(na + 1)), {})[a.arg(na + 1).get_id()] = a
        if S.kind != 'p':
            for gr in groups.values():
                ap = list(gr.values())[:6]
                for x in ap:
                    for y in ap:
                        if x is y:
                            continue
                        args = [x.arg(p) for p in range(na)]
                        lo, h1, h2 = x.arg(na), x.arg(na + 1), y.arg(na + 1)
                        w = fresh('t_' + name)
                        facts.append(z3.Implies(z3.And(lo <= h1, h1 <= h2), z3.Or(x == y, z3.And(h1 <= w, w < h2, S.term(args, w) != 0))))
                        if S.kind == 'i':
                            w = fresh('m_' + name)
                            facts.append(z3.Implies(z3.And(lo <= h1, h1 <= h2), z3.Or(x <= y, z3.And(h1 <= w, w < h2, S.term(args, w) < 0))))
    # products distribute over the sums
    prods = {}
    for f in cur:
        prods.update(prodapps(f))
    for e in prods.values():
        nm = e.decl().name()
        k0, k1 = {'smul': ('s', 's'), 'scal': ('s', 'm'), 'mmul': ('m', 'm')}[nm]
        for pos in (0, 1):
            a = e.arg(pos)
            if not (z3.is_app(a) and a.num_args() > 0 and a.decl().name() in SumFn.reg and SumFn.reg[a.decl().name()].kind in 'sm'):
                continue
            S = SumFn.reg[a.decl().name()]
            na = len(S.sorts)
            args = [a.arg(p) for p in range(na)]
            lo, hi = a.arg(na), a.arg(na + 1)
            h1 = z3.simplify(hi - 1)
            body = S(*(args + [lo, h1])) + num(S.term(args, h1), S.kind)
            o = e.arg(1 - pos)
            on = num(o, k1 if pos == 0 else k0)
            r = body * on if pos == 0 else on * body
            facts.append(z3.Implies(hi <= lo, e == 0))
            facts.append(z3.Implies(lo < hi, e == r.z()))
    return facts


_allprod = {}


def allprods(e):
    """ground product terms"""
    i = e.get_id()
    if i in _allprod:
        return _allprod[i][1]
    out = {}
    if z3.is_quantifier(e):
        out = allprods(e.body())
    elif z3.is_app(e) and e.num_args():
        for c in e.children():
            o = allprods(c)
            if o:
                out = {**out, **o} if out else o
        if e.num_args() == 2 and e.decl().name() in ('smul', 'scal', 'mmul') and is_ground(e):
            out = dict(out)
            out[e.get_id()] = e
    _allprod[i] = (e, out)
    return out


def bilinear(formulas):
    """products with a factor that some hypothesis equates with a linear combination: the product distributes over it"""
    eqs = {}
    for f in formulas:
        if z3.is_eq(f) and f.arg(0).sort() == R:
            for a, b in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                if z3.is_app(b) and b.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL) and \
                        not (z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL)) and is_ground(f):
                    eqs[a.get_id()] = (a, b)
    if not eqs:
        return []
    prods = {}
    for f in formulas:
        prods.update(allprods(f))
    out = []
    for e in [e for e in prods.values() if e.arg(0).get_id() in eqs or e.arg(1).get_id() in eqs][:60]:
        k = {'smul': ('s', 's'), 'scal': ('s', 'm'), 'mmul': ('m', 'm')}[e.decl().name()]
        a, b = e.arg(0), e.arg(1)
        if a.get_id() in eqs or b.get_id() in eqs:
            x = num(eqs[a.get_id()][1], k[0]) if a.get_id() in eqs else num(a, k[0])
            y = num(eqs[b.get_id()][1], k[1]) if b.get_id() in eqs else num(b, k[1])
            out.append(e == (x * y).z())
    # components of a block that some hypothesis equates with a linear combination of blocks
    els = {}
    for f in formulas:
        els.update(elemapps(f))
    for e in [e for e in els.values() if e.arg(0).get_id() in eqs][:60]:
        out.append(e == component(num(eqs[e.arg(0).get_id()][1], 'm'), e.arg(1)).z())
    return out


_allelem = {}


def elemapps(e):
    """ground component terms"""
    i = e.get_id()
    if i in _allelem:
        return _allelem[i][1]
    out = {}
    if z3.is_quantifier(e):
        out = elemapps(e.body())
    elif z3.is_app(e) and e.num_args():
        for c in e.children():
            o = elemapps(c)
            if o:
                out = {**out, **o} if out else o
        if e.decl().name() == 'elem' and is_ground(e):
            out = dict(out)
            out[e.get_id()] = e
    _allelem[i] = (e, out)
    return out


_allmk = {}


def mkapps(e):
    """ground blocks built from their components"""
    i = e.get_id()
    if i in _allmk:
        return _allmk[i][1]
    out = {}
    if z3.is_quantifier(e):
        out = mkapps(e.body())
    elif z3.is_app(e) and e.num_args():
        for c in e.children():
            o = mkapps(c)
            if o:
                out = {**out, **o} if out else o
        if e.decl().name() in MKS and is_ground(e):
            out = dict(out)
            out[e.get_id()] = e
    _allmk[i] = (e, out)
    return out


MKS = set()


def mkfacts(formulas):
    """components of the blocks built from components"""
    if not MKS:
        return []
    ms = {}
    for f in formulas:
        ms.update(mkapps(f))
    return [elem(m, z3.IntVal(k)) == m.arg(k) for m in list(ms.values())[:12] for k in range(m.num_args())]


def lemma_selfcheck():
    """base and step of the inductions that justify the sum lemmas, discharged by the solver (schematic term function)"""
    t1 = z3.Function('t1', I, R)
    t2 = z3.Function('t2', I, R)
    S1 = z3.Function('S1', I, I, R)
    S2 = z3.Function('S2', I, I, R)
    lo, h, j = z3.Ints('lo h j')
    out = []

    def prove(hyps, goal):
        s = z3.Solver()
        s.set('timeout', 10000)
        s.add(*hyps)
        s.add(z3.Not(goal))
        return s.check() == z3.unsat
    d = [z3.ForAll([lo, h], z3.Implies(h <= lo, z3.And(S1(lo, h) == 0, S2(lo, h) == 0)))]
    out.append(prove(d + [h <= lo], S1(lo, h) == S2(lo, h)))
    d2 = [lo < h + 1, S1(lo, h + 1) == S1(lo, h) + t1(h), S2(lo, h + 1) == S2(lo, h) + t2(h),
          z3.Implies(z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < h), t1(j) == t2(j))), S1(lo, h) == S2(lo, h)),
          z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < h + 1), t1(j) == t2(j)))]
    out.append(prove(d2, S1(lo, h + 1) == S2(lo, h + 1)))
    # same induction with a product as the fold
    d2 = [lo < h + 1, S1(lo, h + 1) == smul(S1(lo, h), t1(h)), S2(lo, h + 1) == smul(S2(lo, h), t2(h)),
          z3.Implies(z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < h), t1(j) == t2(j))), S1(lo, h) == S2(lo, h)),
          z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < h + 1), t1(j) == t2(j)))]
    out.append(prove(d2, S1(lo, h + 1) == S2(lo, h + 1)))
    # zero tail and monotone tail: induction on the upper bound, S1(lo,h) = S1(lo,h1) as hypothesis
    h1 = z3.Int('h1')
    st = [lo <= h1, h1 < h + 1, S1(lo, h + 1) == S1(lo, h) + t1(h)]
    out.append(prove(st + [z3.Implies(z3.ForAll([j], z3.Implies(z3.And(h1 <= j, j < h), t1(j) == 0)), S1(lo, h1) == S1(lo, h)),
                           z3.ForAll([j], z3.Implies(z3.And(h1 <= j, j < h + 1), t1(j) == 0))], S1(lo, h1) == S1(lo, h + 1)))
    out.append(prove(st + [z3.Implies(z3.ForAll([j], z3.Implies(z3.And(h1 <= j, j < h), t1(j) >= 0)), S1(lo, h1) <= S1(lo, h)),
                           z3.ForAll([j], z3.Implies(z3.And(h1 <= j, j < h + 1), t1(j) >= 0))], S1(lo, h1) <= S1(lo, h + 1)))
    return all(out)


ISUM = SumFn('isum', [z3.ArraySort(I, I)], lambda a, j: z3.Select(a, j), 'i')

_bg = None


def background():
    """axioms of the uninterpreted products"""
    global _bg
    if _bg is None:
        a, b, v = z3.Reals('a b v')
        i, j, p, q = z3.Ints('i j p q')
        _bg = {
            'smul': [z3.ForAll([a, b], smul(a, b) == smul(b, a), patterns=[smul(a, b)])],
            'upd': [z3.ForAll([a, i, v, p], elem(upd(a, i, v), p) == z3.If(i == p, v, elem(a, p)),
                              patterns=[elem(upd(a, i, v), p)])],
            'had': [z3.ForAll([a, b, p], elem(had(a, b), p) == smul(elem(a, p), elem(b, p)), patterns=[elem(had(a, b), p)])],
        }
    return _bg


_syms = {}
INTEREST = ('smul', 'upd', 'had')


def symbols(e):
    """which of the interesting function symbols occur in e (memoised over the shared term graph)"""
    i = e.get_id()
    if i in _syms:
        return _syms[i][1]
    r = frozenset()
    if z3.is_quantifier(e):
        r = symbols(e.body())
    elif z3.is_app(e):
        n = e.decl().name()
        if n in INTEREST:
            r = frozenset((n,))
        for c in e.children():
            r = r | symbols(c)
    _syms[i] = (e, r)
    return r


def has_symbol(formulas, names):
    out = set()
    for f in formulas:
        out |= symbols(f)
    return out & set(names)


_quant = {}


def quantified(e):
    i = e.get_id()
    if i in _quant:
        return _quant[i][1]
    r = z3.is_quantifier(e) or (z3.is_app(e) and any(quantified(c) for c in e.children()))
    _quant[i] = (e, r)
    return r
