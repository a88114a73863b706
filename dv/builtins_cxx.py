"""Trusted contracts for what is not BLASTed code: Eigen fixed-size algebra, std::vector, allocation, <cmath>, iostream."""
import re, z3
import terms
from terms import Num, num, fresh, I, R
import engine as E
from astdb import ty, inner, where

NOPE = object()
MATH1 = {'sqrt', 'fabs', 'abs', 'exp', 'log', 'ceil', 'floor', 'log2'}


def is_eigen(t):
    return 'Eigen::' in t or t.startswith('Matrix<')


class NoAlias:
    def __init__(self, lv):
        self.lv = lv


def rvn(ex, st, a):
    v = ex.ev(st, a)
    if isinstance(v, E.LV) or hasattr(v, 'vread'):
        return ex.read(st, v, a)
    return v


def tobj(ex, st, v, n):
    if isinstance(v, E.RefBox):
        v = v.lv
    if isinstance(v, E.LV) and not isinstance(v, E.LElem):
        v2 = ex.read(st, v, n)
        return v2
    return v


def isvec(ex, st, v):
    return isinstance(v, E.ObjRef) and st.objs[v.id].get('__cls', '').startswith('std::vector')


# --------------------------------------------------------------------------------------------- std::vector model
def vec_type(t):
    t = E.norm_ty(t)
    if t.startswith('device_vector') or t.startswith('blasted::device_vector'):
        t = t.replace('blasted::', '').replace('device_vector', 'std::vector', 1)
    if not t.startswith('std::vector<') and not t.startswith('vector<'):
        return None
    if t.startswith('vector<'):
        t = 'std::' + t
    body = t[len('std::vector<'):-1]
    depth, out, cur = 0, [], ''
    for ch in body:
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
            continue
        depth += ch in '<(['
        depth -= ch in '>)]'
        cur += ch
    out.append(cur)
    return E.norm_ty(out[0])


def elem_region(ex, st, et, length, init0=None):
    """region for the elements of a vector<et>"""
    if E.is_int(et) or et == 'bool' or ex.is_enum(et):
        a = z3.K(I, z3.IntVal(0)) if init0 else None
        return ex.new_region(st, 'vec', I, 1, length, 's', init=a)
    if E.is_float(et):
        a = z3.K(I, z3.RealVal(0)) if init0 else None
        return ex.new_region(st, 'vec', R, 1, length, 's', init=a)
    inn = vec_type(et)
    if list_type(et) is not None:
        rid = ex.new_region(st, 'lists', I, 1, length, 's', fields={'__set': AIb})
        if init0:
            st.heap[rid + '.__set'] = z3.K(I, z3.K(I, z3.BoolVal(False)))
        return rid
    if inn is not None:
        return vecvec_region(ex, st, inn, length, init0)
    rec = ex.record(et)
    if rec is not None:
        fields = {}
        for f in rec.fields:
            t = ty(f)
            fields[f['name']] = R if E.is_float(t) else I
        return ex.new_region(st, 'vecS', I, 1, length, 's', fields=fields)
    raise E.Unsupported('vector of ' + et)


AIb = z3.ArraySort(I, z3.BoolSort())
LISTEND = z3.IntVal(2147483648)


def list_type(t):
    m = re.match(r'(?:std::)?list<int>$', E.norm_ty(t))
    return 'int' if m else None


class ListElem:
    """std::list<int> number i of a vector of lists.  Trusted contract of std::list for lists filled in strictly increasing order (an obligation of
    push_back): the list is the set of its values; an iterator is the value it points at (the end: above every int); traversal goes by increasing value."""

    def __init__(self, rid, i):
        self.rid, self.i = rid, i

    def vread(self, st):
        return self

    def set(self, st):
        return z3.simplify(z3.Select(st.heap[self.rid + '.__set'], self.i))

    def has(self, st, x):
        return z3.Select(self.set(st), x)

    def put(self, ex, st, x, v):
        key = self.rid + '.__set'
        st.heap[key] = z3.Store(st.heap[key], self.i, z3.Store(self.set(st), x, z3.BoolVal(v)))
        ex.note_mod(('h', key), self.i)

    def all(self, st, f):
        x = z3.Int('x!list')
        s = self.set(st)
        if z3.is_app(s) and (s.decl().kind() != z3.Z3_OP_SELECT or s.arg(0).num_args() > 0):
            t = fresh('lset', AIb)
            st.assume(t == s)
            s = t
        return z3.ForAll([x], z3.Implies(z3.Select(s, x), f(x)), patterns=[z3.Select(s, x)])

    def first_from(self, ex, st, lo):
        """the smallest element above lo, or the end"""
        p = fresh('listpos')
        st.assume(z3.And(z3.Or(p == LISTEND, self.has(st, p)), p > lo, p <= LISTEND, self.all(st, lambda x: z3.Or(x <= lo, p <= x)), self.all(st, lambda x: x < LISTEND)))
        return ListIter(self, p)

    def call_method(self, ex, st, name, args, n):
        if name in ('push_back', 'emplace_back'):
            v = ex.as_int(rvn(ex, st, args[0]))
            st.assume(v < LISTEND)
            ex.oblige(st, self.all(st, lambda x: x < v), 'list-filled-in-increasing-order', n)
            self.put(ex, st, v, True)
            return None
        if name == 'front':
            p = self.first_from(ex, st, z3.IntVal(-LISTEND.as_long() - 1)).i
            ex.oblige(st, p != LISTEND, 'front of a non-empty list', n)
            return p
        if name in ('begin', 'cbegin'):
            return self.first_from(ex, st, z3.IntVal(-LISTEND.as_long() - 1))
        if name in ('end', 'cend'):
            return ListIter(self, LISTEND)
        if name == 'empty':
            return self.first_from(ex, st, z3.IntVal(-LISTEND.as_long() - 1)).i == LISTEND
        if name == 'erase' and len(args) == 1:
            it = rvn(ex, st, args[0])
            if not isinstance(it, ListIter) or it.l.rid != self.rid:
                raise E.Unsupported('erase at ' + where(n))
            ex.oblige(st, z3.And(it.l.i == self.i, it.i != LISTEND, self.has(st, it.i)), 'erase of an element of this list', n)
            self.put(ex, st, it.i, False)
            return self.first_from(ex, st, it.i)
        raise E.Unsupported('list operation %s at %s' % (name, where(n)))


class ListIter:
    def __init__(self, l, i):
        self.l, self.i = l, i

    def at_pos(self, i):
        return ListIter(self.l, i)


def set_type(t):
    return re.match(r'(?:std::)?set<int(, std::less<int>(, std::allocator<int>)?)?>$', E.norm_ty(t)) is not None


CARD = z3.Function('set_size', AIb, I)
RANK = z3.Function('set_rank', AIb, I, I)
ENUM = z3.Function('set_item', AIb, I, I)


def member_fact(S, x):
    """a member has a place in the traversal (instances of this are part of the std::set contract)"""
    return z3.Implies(z3.Select(S, x), z3.And(0 <= RANK(S, x), RANK(S, x) < CARD(S), ENUM(S, RANK(S, x)) == x))


class SetObj:
    """std::set<int>.  Trusted contract: a set of values; traversal goes by increasing value and visits each value once.  set_size is the number of
    values, set_rank the place of a value in the traversal."""

    def __init__(self, rid):
        self.rid = rid

    def vread(self, st):
        return self

    def set(self, st):
        return st.heap[self.rid + '.__set']

    def call_method(self, ex, st, name, args, n):
        key = self.rid + '.__set'
        if name in ('insert', 'emplace') and len(args) == 1:
            v = ex.as_int(rvn(ex, st, args[0]))
            st.heap[key] = z3.Store(st.heap[key], v, z3.BoolVal(True))
            ex.note_mod(('h', key), v)
            return E.Opaque('insert result')
        if name == 'size':
            st.assume(CARD(self.set(st)) >= 0)
            return CARD(self.set(st))
        if name == 'empty':
            st.assume(CARD(self.set(st)) >= 0)
            return CARD(self.set(st)) == 0
        if name in ('count', 'contains') and len(args) == 1:
            h = z3.Select(self.set(st), ex.as_int(rvn(ex, st, args[0])))
            return h if name == 'contains' else z3.If(h, z3.IntVal(1), z3.IntVal(0))
        if name == 'clear':
            st.heap[key] = z3.K(I, z3.BoolVal(False))
            ex.note_mod(('h', key))
            return None
        if name in ('begin', 'cbegin', 'end', 'cend'):
            return SetIter(self, name.endswith('end'))
        raise E.Unsupported('set operation %s at %s' % (name, where(n)))


class SetIter:
    def __init__(self, s, end):
        self.s, self.end = s, end


def new_set(ex, st):
    rid = ex.new_region(st, 'set', I, 1, None, 's', fields={'__set': z3.BoolSort()})
    st.heap[rid + '.__set'] = z3.K(I, z3.BoolVal(False))
    return SetObj(rid)


def vec_from_set(ex, st, t, s, n):
    """std::vector(s.begin(), s.end()): the values in increasing order"""
    S = s.set(st)
    o = new_vec(ex, st, t, CARD(S), False)
    a = st.heap[st.objs[o.id]['rid']]
    k, l = z3.Ints('k!set l!set')
    at = ENUM(S, k)
    st.assume(CARD(S) >= 0)
    st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < CARD(S)), z3.And(z3.Select(a, k) == at, z3.Select(S, at), RANK(S, at) == k)), patterns=[z3.Select(a, k)]))
    st.assume(z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k < l, l < CARD(S)), z3.Select(a, k) < z3.Select(a, l)), patterns=[z3.MultiPattern(z3.Select(a, k), z3.Select(a, l))]))
    return o


SECOND = {}      # region of a list of lists of pairs: length of the array part


def AIr(s):
    return z3.ArraySort(I, s)


def pair_type(t):
    """std::pair<int, double[n]> or std::pair<int, std::array<double, n>>: n"""
    m = re.match(r'(?:std::)?pair<int, (?:double\s*\[(\d+)\]|(?:std::)?array<double, (\d+)U?L?>)\s*>$', E.norm_ty(t))
    return int(m.group(1) or m.group(2)) if m else None


class VVBlk:
    """array part of element k of element i of a vector<vector<pair<int, array>>>"""

    def __init__(self, ex, rid, i, k, n):
        self.ex, self.rid, self.i, self.k, self.n = ex, rid, i, k, n

    def vread(self, st):
        return self

    def at(self, st, c, n):
        self.ex.oblige(st, z3.And(c >= 0, c < self.n), 'in-bounds(array index)', n)
        return VVComp(self, z3.simplify(c))

    def cell(self, st):
        return z3.simplify(z3.Select(z3.Select(st.heap[self.rid + '.__data.second'], self.i), self.k))


class VVComp:
    def __init__(self, b, c):
        self.b, self.c = b, c

    def vread(self, st):
        v = self.b.cell(st)
        return num(v, 's') if self.b.n == 1 else terms.component(num(v, 'm'), self.c)

    def vwrite(self, st, val):
        b, key = self.b, self.b.rid + '.__data.second'
        val = val if isinstance(val, Num) else num(val, 's')
        z = val.z() if b.n == 1 else b.ex.upd(num(b.cell(st), 'm'), self.c, val, b.n)
        z = z.z() if isinstance(z, Num) else z
        st.heap[key] = z3.Store(st.heap[key], b.i, z3.Store(z3.Select(st.heap[key], b.i), b.k, z))
        b.ex.note_mod(('h', key), b.i)


def vecvec_region(ex, st, inn, length, init0):
    es = R if E.is_float(inn) else I
    pr = pair_type(inn)
    rec = None if (E.is_int(inn) or E.is_float(inn) or pr) else ex.record(inn)
    fields = {'__len': I}
    if pr:
        fields['__data.first'] = AIr(I)
        fields['__data.second'] = AIr(R)
    elif rec is None:
        if not (E.is_int(inn) or E.is_float(inn)):
            raise E.Unsupported('vector of vector of ' + inn)
        fields['__data'] = z3.ArraySort(I, es)
    else:
        for f in rec.fields:
            fields['__data.' + f['name']] = z3.ArraySort(I, R if E.is_float(ty(f)) else I)
    rid = ex.new_region(st, 'vecvec', I, 1, length, 's', fields=fields)
    if pr:
        SECOND[rid] = pr
    if init0:
        st.heap[rid + '.__len'] = z3.K(I, z3.IntVal(0))
    return rid


def new_vec(ex, st, t, length, zero=True):
    et = vec_type(t)
    o = ex.new_obj(st, 'std::vector<%s>' % et)
    st.objs[o.id]['rid'] = elem_region(ex, st, et, None, zero)
    st.objs[o.id]['len'] = length if z3.is_expr(length) else z3.IntVal(length)
    st.objs[o.id]['et'] = E.Opaque(et)
    return o


def vec_copy(ex, st, o, src):
    s = st.objs[src.id]
    d = st.objs[o.id]
    et = s['et'].what
    rid = elem_region(ex, st, et, None)
    r0 = st.regs[s['rid']]
    if r0.fields:
        for f in r0.fields:
            st.heap[rid + '.' + f] = st.heap[s['rid'] + '.' + f]
    else:
        st.heap[rid] = st.heap[s['rid']]
    d['rid'], d['len'], d['et'] = rid, s['len'], s['et']


E.Exec.vec_copy = vec_copy


def touch_range(ex, st, reg, lo, hi, kind):
    """record an access to every element of a range (for the independence of parallel iterations): one arbitrary element of it"""
    if st.log is not None and ex.mode != 'dry' and not (kind == 'r' and ex.atomic):
        w = fresh('any')
        st.log.append((kind, reg, w, None, list(st.pc) + [z3.And(lo <= w, w < hi)]))


def vec_from_range(ex, st, t, a, b, n):
    """std::vector(first, last) over a plain array"""
    if a.reg != b.reg or a.reg is None or st.regs[a.reg].fields or st.regs[a.reg].unit != 1:
        raise E.Unsupported('vector from range at ' + where(n))
    r = st.regs[a.reg]
    ex.oblige(st, z3.And(a.off <= b.off, z3.Or(a.off == b.off, z3.And(0 <= a.off, b.off <= r.len))), 'in-bounds(range of %s)' % a.reg, n)
    ln = z3.simplify(b.off - a.off)
    o = new_vec(ex, st, t, ln, False)
    rid = st.objs[o.id]['rid']
    touch_range(ex, st, a.reg, a.off, b.off, 'r')
    h, k = st.heap[rid], z3.Int('k!rg')
    src = z3.Select(st.heap[a.reg], z3.simplify(a.off + k))
    st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ln), z3.Select(h, k) == src), patterns=[z3.Select(h, k)]))
    return o


class VecElemVec:
    """element (itself a vector) i of a vector<vector<T>> region"""

    def __init__(self, rid, i):
        self.rid, self.i = rid, i

    def vread(self, st):
        return self

    def len(self, st):
        return z3.simplify(z3.Select(st.heap[self.rid + '.__len'], self.i))

    def setlen(self, ex, st, n):
        st.heap[self.rid + '.__len'] = z3.Store(st.heap[self.rid + '.__len'], self.i, n)
        ex.note_mod(('h', self.rid + '.__len'), self.i)

    def fields(self, st):
        return [f for f in st.regs[self.rid].fields if f.startswith('__data')]


class VVElem:
    """element k of element i of a vector<vector<T>> region (lvalue)"""

    def __init__(self, rid, i, k, field):
        self.rid, self.i, self.k, self.field = rid, i, k, field
        self.ex = None

    def vread(self, st):
        key = self.rid + '.' + self.field
        if key not in st.heap:
            return self
        v = z3.simplify(z3.Select(z3.Select(st.heap[key], self.i), self.k))
        return num(v, 's') if v.sort() == R else v

    def vwrite(self, st, val):
        key = self.rid + '.' + self.field
        z = val.z() if isinstance(val, Num) else val
        st.heap[key] = z3.Store(st.heap[key], self.i, z3.Store(z3.Select(st.heap[key], self.i), self.k, z))
        self.ex.note_mod(('h', key), self.i)

    def member(self, ex, st, name):
        if name == 'second' and self.rid + '.__data.second' in st.heap:
            return VVBlk(ex, self.rid, self.i, self.k, SECOND[self.rid])
        v = VVElem(self.rid, self.i, self.k, '__data.' + name)
        v.ex = ex
        return v


def vec_elem(ex, st, v, i, n):
    o = st.objs[v.id]
    ex.oblige(st, z3.And(i >= 0, i < o['len']), 'in-bounds(vector index)', n)
    et = o['et'].what
    if vec_type(et) is not None:
        return VecElemVec(o['rid'], i)
    if list_type(et) is not None:
        return ListElem(o['rid'], i)
    return E.LElem(o['rid'], i, None, et)


def vv_elem(ex, st, v, i, n):
    ex.oblige(st, z3.And(i >= 0, i < v.len(st)), 'in-bounds(vector index)', n)
    r = VVElem(v.rid, v.i, i, '__data')
    r.ex = ex
    return r


def setlen(ex, st, o, n):
    st.objs[o.id]['len'] = z3.simplify(n)
    ex.note_mod(('f', o.id, 'len'))


def vec_method(ex, st, o, name, args, n):
    ob = st.objs[o.id]
    if name == 'size':
        return ob['len']
    if name == 'empty':
        return ob['len'] == 0
    if name in ('operator[]', 'at'):
        return vec_elem(ex, st, o, ex.as_int(rvn(ex, st, args[0])), n)
    if name == 'data':
        ex_et = ob['et'].what
        return E.Ptr(ob['rid'], z3.IntVal(0), 1, ex_et)
    if name in ('begin', 'cbegin'):
        return VecIter(o, z3.IntVal(0))
    if name in ('end', 'cend'):
        return VecIter(o, ob['len'])
    if name == 'back':
        return vec_elem(ex, st, o, ob['len'] - 1, n)
    if name == 'front':
        return vec_elem(ex, st, o, z3.IntVal(0), n)
    if name in ('reserve', 'shrink_to_fit'):
        if args:
            rvn(ex, st, args[0])
        return None
    if name == 'clear':
        setlen(ex, st, o, z3.IntVal(0))
        return None
    if name in ('push_back', 'emplace_back'):
        v = rvn(ex, st, args[0])
        i = ob['len']
        et = ob['et'].what
        if vec_type(et) is not None:
            raise E.Unsupported('push_back of vector')
        r = st.regs[ob['rid']]
        setlen(ex, st, o, i + 1)
        ex.assign(st, E.LElem(ob['rid'], i, None, et), v, {'type': {'qualType': et}, 'kind': 'x'})
        return None
    if name in ('resize', 'assign'):
        k = ex.as_int(rvn(ex, st, args[0]))
        et = ob['et'].what
        ex.oblige(st, k >= 0, 'vector-size-nonnegative', n)
        old = ob['len']
        r = st.regs[ob['rid']]
        val = None
        if len(args) > 1 and args[1].get('kind') != 'CXXDefaultArgExpr':
            val = rvn(ex, st, args[1])
        if z3.is_true(z3.simplify(old == 0)) or name == 'assign':
            if vec_type(et) is not None:
                st.heap[ob['rid'] + '.__len'] = z3.K(I, z3.IntVal(0))
                ex.note_mod(('h', ob['rid'] + '.__len'))
            elif not r.fields:
                z = (val.z() if isinstance(val, Num) else val) if val is not None else None
                if z is None:
                    z = z3.RealVal(0) if r.sort == R else z3.IntVal(0)
                if z.sort() != r.sort:
                    z = ex.as_num(z).z() if r.sort == R else ex.as_int(z)
                st.heap[ob['rid']] = z3.K(I, z)
                ex.note_mod(('h', ob['rid']))
        else:
            if r.fields or val is not None:
                raise E.Unsupported('resize of non-empty vector')
            a = fresh('rsz', z3.ArraySort(I, r.sort))
            kk = z3.Int('k!rs')
            z = z3.RealVal(0) if r.sort == R else z3.IntVal(0)
            st.assume(z3.ForAll([kk], z3.Select(a, kk) == z3.If(kk < old, z3.Select(st.heap[ob['rid']], kk), z),
                                patterns=[z3.Select(a, kk)]))
            st.heap[ob['rid']] = a
            ex.note_mod(('h', ob['rid']))
        setlen(ex, st, o, k)
        return None
    return NOPE


def vv_method(ex, st, v, name, args, n):
    if name == 'size':
        return v.len(st)
    if name == 'empty':
        return v.len(st) == 0
    if name in ('operator[]', 'at'):
        return vv_elem(ex, st, v, ex.as_int(rvn(ex, st, args[0])), n)
    if name in ('begin', 'end'):
        return VVIter(v, z3.IntVal(0) if name == 'begin' else v.len(st))
    if name == 'reserve':
        return None
    if name in ('push_back', 'emplace_back'):
        x = rvn(ex, st, args[0])
        k = v.len(st)
        if isinstance(x, PairVal):
            for f, z in (('first', x.first), ('second', x.second)):
                e = VVElem(v.rid, v.i, k, '__data.' + f)
                e.ex = ex
                e.vwrite(st, z)
        elif isinstance(x, E.ObjRef):
            for f in v.fields(st):
                e = VVElem(v.rid, v.i, k, f)
                e.ex = ex
                e.vwrite(st, st.objs[x.id][f[len('__data.'):]])
        else:
            e = VVElem(v.rid, v.i, k, '__data')
            e.ex = ex
            e.vwrite(st, x)
        v.setlen(ex, st, k + 1)
        return None
    if name == 'assign' and len(args) == 2 and v.fields(st) == ['__data']:
        k = ex.as_int(rvn(ex, st, args[0]))
        x = rvn(ex, st, args[1])
        ex.oblige(st, k >= 0, 'vector-size-nonnegative', n)
        key = v.rid + '.__data'
        x = x.z() if isinstance(x, Num) else ex.as_int(x)
        if x.sort() != st.heap[key].sort().range().range():
            raise E.Unsupported('assign at ' + where(n))
        st.heap[key] = z3.Store(st.heap[key], v.i, z3.K(I, x))
        ex.note_mod(('h', key), v.i)
        v.setlen(ex, st, k)
        return None
    if name == 'resize':
        k = ex.as_int(rvn(ex, st, args[0]))
        ex.oblige(st, k >= 0, 'vector-size-nonnegative', n)
        keys = [v.rid + '.' + f for f in v.fields(st)]
        if ex.mode != 'dry' and not ex.prove(st, v.len(st) == 0).ok:
            raise E.Unsupported('resize of non-empty inner vector')
        for key in keys:
            srt = st.heap[key].sort().range().range()
            z = z3.RealVal(0) if srt == R else z3.IntVal(0)
            st.heap[key] = z3.Store(st.heap[key], v.i, z3.K(I, z))
            ex.note_mod(('h', key), v.i)
        v.setlen(ex, st, k)
        return None
    return NOPE


class VecIter:
    def __init__(self, o, i):
        self.o, self.i = o, i

    def at_pos(self, i):
        return VecIter(self.o, i)


class VVIter:
    def __init__(self, v, i):
        self.v, self.i = v, i

    def at_pos(self, i):
        return VVIter(self.v, i)


class PairVal:
    """std::pair<int, array of n doubles>"""

    def __init__(self, first, second, n):
        self.first, self.second, self.n = first, second, n


def pair_of(ex, st, t, a, b, n):
    k = pair_type(t)
    if k is None or not isinstance(b, E.Ptr) or st.regs[b.reg].unit != 1:
        raise E.Unsupported('pair %s at %s' % (t, where(n)))
    cells = [ex.read(st, E.LElem(b.reg, z3.simplify(b.off + i), None, 'double'), n) for i in range(k)]
    return PairVal(ex.as_int(a), cells[0] if k == 1 else num(terms.mkblk(k, 1, cells), 'm'), k)


# ------------------------------------------------------------------------------------------------------- dispatch
def method(ex, st, b, args, n):
    o = tobj(ex, st, b.obj, n)
    bt = ty(b.basenode) if b.basenode is not None else ''
    if isinstance(o, E.ObjPtr) and o.ref is not None:
        o = o.ref
    if isvec(ex, st, o):
        return vec_method(ex, st, o, b.name, args, n)
    if isinstance(o, VecElemVec):
        return vv_method(ex, st, o, b.name, args, n)
    if isinstance(o, E.Opaque) and b.name in ('allocate', 'deallocate') and 'allocator' in bt:
        if b.name == 'deallocate':
            return free(ex, st, rvn(ex, st, args[0]), n)
        pt = E.pointee(ty(n))
        cnt = z3.simplify(ex.as_int(rvn(ex, st, args[0])))
        ei = E.eig(pt)
        if ei is None:
            return E.AllocPtr(cnt).typed(ex, st, pt)
        rid = ex.new_region(st, 'alloc', z3.RealSort(), ei[0] * ei[1], cnt, 'm', stor=ei[2])
        st.alive[rid] = True
        return E.Ptr(rid, z3.IntVal(0), ei[0] * ei[1], pt)
    if isinstance(o, E.Opaque):
        for a in args:
            try:
                ex.ev(st, a)
            except E.Unsupported:
                pass
        t = ty(n)
        if E.is_int(t) or t == 'bool' or E.is_float(t):
            return ex.havoc_value(t, 'opaque')
        return E.Opaque('result of ' + b.name)
    if isinstance(o, E.Str) and b.name in ('c_str', 'data'):
        return o
    if isinstance(o, E.Str) and b.name == 'length':
        return z3.Length(o.z)
    ext = getattr(o, 'call_method', None)
    if ext is not None:
        return ext(ex, st, b.name, args, n)
    # Eigen
    if isinstance(b.obj, (E.LElem, E.LLocal, E.LTemp, E.LField, Num, NoAlias)) and (isinstance(o, (Num, NoAlias)) or isinstance(o, E.LElem)):
        lv = b.obj
        if isinstance(o, E.LElem):
            lv = o
        if b.name == 'noalias':
            return NoAlias(lv)
        if b.name == 'setZero':
            ex.write(st, lv, Num.zero('m'), n)
            return lv
        v = o if isinstance(o, Num) else ex.read(st, lv, n)
        if b.name == 'inverse':
            return terms.blkinv(v)
        if b.name in ('eval', 'derived', 'matrix', 'array', 'lazyProduct') and not args:
            return v
        if b.name in ('operator()', 'operator[]', 'coeff', 'coeffRef'):
            return coeff(ex, st, lv, bt, args, n)
        if b.name == 'transpose':
            return Num.atom(z3.Function('mtrans', R, R)(v.z()), 'm')
        if b.name in ('sum', 'trace', 'prod', 'norm', 'squaredNorm', 'determinant', 'maxCoeff', 'minCoeff'):
            return Num.atom(z3.Function('e' + b.name, R, R)(v.z()), 's')
        if b.name in ('cwiseAbs', 'cwiseInverse', 'diagonal', 'abs'):
            return Num.atom(z3.Function('e' + b.name, R, R)(v.z()), 'm')
        if b.name in ('cwiseProduct',):
            w = rvn(ex, st, args[0])
            x, y = sorted([v.z(), w.z()], key=lambda t: (terms.tagof(t), t.get_id()))
            return Num.atom(terms.had(x, y), 'm')
        raise E.Unsupported('Eigen method %s at %s' % (b.name, where(n)))
    return NOPE


def coeff(ex, st, lv, t, args, n):
    e = E.eig(t)
    idx = [ex.as_int(rvn(ex, st, a)) for a in args]
    if e is None:
        # base-class type, e.g. Eigen::DenseCoeffsBase<Eigen::Matrix<double, 4, 4>, 1>
        m = re.search(r'Matrix<double, (\d+), (\d+)([^>]*)>', t)
        if not m:
            raise E.Unsupported('coefficient of ' + t)
        e = E.eig(m.group(0)) or (int(m.group(1)), int(m.group(2)), 0)
    r, c, stor = e
    if len(idx) == 1:
        i = idx[0]
        ex.oblige(st, z3.And(i >= 0, i < r * c), 'in-bounds(block component)', n)
        flat = i
    else:
        i, j = idx
        ex.oblige(st, z3.And(i >= 0, i < r, j >= 0, j < c), 'in-bounds(block component)', n)
        flat = i + r * j if stor == 0 else i * c + j
    flat = z3.simplify(flat)
    if isinstance(lv, Num):
        return terms.component(lv, flat)
    return E.LComp(lv, flat, r * c)


def operator(ex, st, f, args, n):
    name = f.name
    t0 = ty(args[0])
    if name in ('operator<<', 'operator>>') and 'stream' in t0:
        return E.Opaque('stream')
    if vec_type(t0) is not None or (name in ('operator[]', 'operator=', 'operator()') and 'vector<' in t0):
        o = tobj(ex, st, ex.ev(st, args[0]), n)
        if isvec(ex, st, o):
            if name == 'operator=':
                src = tobj(ex, st, ex.ev(st, args[1]), n)
                if isvec(ex, st, src):
                    vec_assign(ex, st, o, src)
                    return o
                return NOPE
            return vec_method(ex, st, o, name, args[1:], n)
        if isinstance(o, VecElemVec):
            return vv_method(ex, st, o, name, args[1:], n)
    if 'string' in t0 and name in ('operator==', 'operator!=', 'operator+', 'operator+='):
        a, b = rvn(ex, st, args[0]), rvn(ex, st, args[1])
        if isinstance(a, E.Str) and isinstance(b, E.Str) and name in ('operator==', 'operator!='):
            r = a.z == b.z
            return r if name == 'operator==' else z3.Not(r)
        return E.Opaque('string')
    if name == 'operator=' and 'string' in t0:
        lv = ex.ev(st, args[0])
        v = rvn(ex, st, args[1])
        ex.write(st, lv, v, n)
        return lv
    if name == 'operator[]' and 'std::array' in t0:
        o = tobj(ex, st, ex.ev(st, args[0]), n)
        if isinstance(o, VVBlk):
            return o.at(st, ex.as_int(rvn(ex, st, args[1])), n)
        if isinstance(o, E.Ptr):
            return ex.deref(st, E.Ptr(o.reg, ex.padd(o, ex.as_int(rvn(ex, st, args[1]))), o.es, o.et), n)
    if name in ('operator++', 'operator*', 'operator->', 'operator!=', 'operator==', 'operator-', 'operator+') and 'iterator' in t0:
        return iterator_op(ex, st, name, args, n)
    if name in ('operator*', 'operator->') and ('unique_ptr' in t0 or 'shared_ptr' in t0):
        return NOPE
    if any(is_eigen(ty(a)) for a in args) or is_eigen(ty(n)):
        return eigen_op(ex, st, name, args, n)
    return NOPE


def vec_assign(ex, st, o, src):
    vec_copy(ex, st, o, src)
    ex.note_mod(('f', o.id, 'len'))
    ex.note_mod(('f', o.id, 'rid'))


def iterator_op(ex, st, name, args, n):
    lv = ex.ev(st, args[0])
    a = ex.read(st, lv, n) if isinstance(lv, E.LV) else lv
    if isinstance(a, ListIter):
        if name == 'operator*':
            ex.oblige(st, z3.And(a.i != LISTEND, a.l.has(st, a.i)), 'iterator at a list element', n)
            return a.i
        if name in ('operator!=', 'operator=='):
            b = rvn(ex, st, args[1])
            if isinstance(b, ListIter) and b.l.rid == a.l.rid:
                ex.oblige(st, a.l.i == b.l.i, 'iterators of one list', n)
                return a.i == b.i if name == 'operator==' else a.i != b.i
        if name == 'operator++':
            ex.oblige(st, z3.And(a.i != LISTEND, a.l.has(st, a.i)), 'iterator at a list element', n)
            ex.write(st, lv, a.l.first_from(ex, st, a.i), n)
            return lv if len(args) == 1 else a
        return NOPE
    if name in ('operator*', 'operator->'):
        if isinstance(a, VecIter):
            return vec_elem(ex, st, a.o, a.i, n)
        if isinstance(a, VVIter):
            return vv_elem(ex, st, a.v, a.i, n)
    if name in ('operator!=', 'operator=='):
        b = rvn(ex, st, args[1])
        if type(a) == type(b) and isinstance(a, (VecIter, VVIter)):
            r = a.i == b.i
            return r if name == 'operator==' else z3.Not(r)
    if name == 'operator++' and isinstance(a, (VecIter, VVIter)):
        nw = a.at_pos(z3.simplify(a.i + 1))
        ex.write(st, lv, nw, n)
        return lv if len(args) == 1 else a
    if name in ('operator-', 'operator+') and isinstance(a, (VecIter, VVIter)):
        b = rvn(ex, st, args[1])
        if isinstance(b, (VecIter, VVIter)):
            return z3.simplify(a.i - b.i)
        d = ex.as_int(b) if name == 'operator+' else -ex.as_int(b)
        return VecIter(a.o, z3.simplify(a.i + d)) if isinstance(a, VecIter) else VVIter(a.v, z3.simplify(a.i + d))
    return NOPE


def eigen_op(ex, st, name, args, n):
    if name in ('operator()', 'operator[]'):
        lv = ex.ev(st, args[0])
        return coeff(ex, st, lv, ty(args[0]), args[1:], n)
    if name in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/='):
        lv = ex.ev(st, args[0])
        noal = isinstance(lv, NoAlias)
        if noal:
            lv = lv.lv
        track = []
        old_track = getattr(ex, 'readtrack', None)
        if noal and 'Product<' in ty(args[1]):
            ex.readtrack = track
        v = rvn(ex, st, args[1])
        ex.readtrack = old_track
        if noal and isinstance(lv, E.LElem):
            for (rid, idx) in track:
                if rid == lv.reg:
                    ex.oblige(st, idx != lv.idx, 'noalias-destination-not-read', n)
        elif noal and isinstance(lv, E.LLocal):
            for (rid, idx) in track:
                if rid == ('l', lv.key):
                    ex.oblige(st, False, 'noalias-destination-not-read', n)
        v = ex.as_num(v)
        if name != 'operator=':
            old = ex.read(st, lv, n)
            if name == 'operator+=':
                v = old + v
            elif name == 'operator-=':
                v = old - v
            elif name == 'operator*=':
                v = v * old if v.k == 's' else old * v
            else:
                v = old * terms.recip(v)
        elif v.k == 's' and not v.p:
            v = Num.zero('m')
        ex.write(st, lv, v, n)
        return lv
    vals = [ex.as_num(rvn(ex, st, a), 'm') for a in args]
    if name == 'operator*':
        return vals[0] * vals[1]
    if name == 'operator+':
        return vals[0] + vals[1]
    if name == 'operator-':
        return -vals[0] if len(vals) == 1 else vals[0] - vals[1]
    if name == 'operator/':
        return vals[0] * terms.recip(vals[1])
    raise E.Unsupported('Eigen operator %s at %s' % (name, where(n)))


def function(ex, st, f, args, n):
    name = f.name
    if name in ('__assert_fail', 'abort', 'exit'):
        ex.oblige(st, False, 'abort-unreachable', n)
        raise E.PathEnd()
    if name == 'Zero' and is_eigen(ty(n)):
        return Num.zero('m')
    if name == 'Identity' and is_eigen(ty(n)):
        return Num.atom(z3.Const('blkI', R), 'm')
    if name in ('move', 'forward') and len(args) == 1:
        return ex.ev(st, args[0])
    if name == 'aligned_alloc':
        return E.AllocPtr(ex.as_int(rvn(ex, st, args[1])))
    if name == 'aligned_free':
        return free(ex, st, rvn(ex, st, args[0]), n)
    if name in MATH1 and len(args) == 1:
        v = rvn(ex, st, args[0])
        if isinstance(v, Num) or name not in ('abs',):
            v = ex.as_num(v)
            if name == 'sqrt':
                return Num.atom(terms.ssqrt(v.z()), 's')
            if name in ('abs', 'fabs'):
                z = v.z()
                if ex.opts.get('uabs'):
                    return Num.atom(terms.sabs(z), 's')     # nothing about magnitudes is needed
                return Num.atom(z3.If(z >= 0, z, -z), 's')
            if name == 'ceil' and z3.is_app(v.z()) and v.z().decl().name() == 'f_log2':
                # trusted: ceil(log2(x)) is the least L with x <= 2^L, for integers x >= 1
                x = v.z().arg(0)
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
                    x = x.arg(0)
                    L = fresh('ceillog2')
                    ex.oblige(st, x >= 1, 'log2 of a positive number', n)
                    st.assume(z3.And(L >= 0, x <= terms.ipow(2, L), z3.Or(L == 0, terms.ipow(2, L - 1) < x), terms.ipow(2, 0) == 1))
                    return Num.atom(z3.ToReal(L), 's')
            if v.isconst() and name in ('ceil', 'floor'):
                import math
                return Num.const(math.ceil(v.constval()) if name == 'ceil' else math.floor(v.constval()))
            return Num.atom(z3.Function('f_' + name, R, R)(v.z()), 's')
        i = ex.as_int(v)
        return z3.If(i >= 0, i, -i)
    if name in ('min', 'max') and len(args) == 2:
        a, b = rvn(ex, st, args[0]), rvn(ex, st, args[1])
        if isinstance(a, Num) or isinstance(b, Num):
            x, y = ex.as_num(a).z(), ex.as_num(b).z()
            return num(z3.If(x <= y, x, y) if name == 'min' else z3.If(x >= y, x, y), 's')
        x, y = ex.as_int(a), ex.as_int(b)
        return z3.If(x <= y, x, y) if name == 'min' else z3.If(x >= y, x, y)
    if name in ('min', 'max', 'lowest', 'epsilon', 'infinity') and not args:
        t = ty(n)
        if E.is_float(t):
            return Num.atom(z3.Const('dbl_' + name, R), 's')
        return z3.IntVal({'max': 2147483647, 'min': -2147483648, 'lowest': -2147483648}[name])
    if name == 'swap' and len(args) == 2:
        a, b = ex.ev(st, args[0]), ex.ev(st, args[1])
        x, y = ex.read(st, a, n), ex.read(st, b, n)
        if isinstance(x, (Num, )) or z3.is_expr(x):
            ex.write(st, a, y, n)
            ex.write(st, b, x, n)
            return None
        raise E.Unsupported('swap')
    if name == 'make_pair' and len(args) == 2:
        return pair_of(ex, st, ty(n), rvn(ex, st, args[0]), rvn(ex, st, args[1]), n)
    if name == 'find' and len(args) == 3:
        a, b, v = rvn(ex, st, args[0]), rvn(ex, st, args[1]), rvn(ex, st, args[2])
        if isinstance(a, ListIter) and isinstance(b, ListIter) and a.l.rid == b.l.rid:
            v = ex.as_int(v)
            ex.oblige(st, a.l.i == b.l.i, 'iterators of one list', n)
            return a.at_pos(z3.If(z3.And(a.l.has(st, v), a.i <= v, v < b.i), v, b.i))
    if name == 'sort' and len(args) == 3:
        return sort_sorted(ex, st, args, n)
    if name in ('printf', 'fprintf', 'fflush', 'flush', 'endl'):
        return z3.IntVal(0)
    if name == 'omp_get_max_threads' or name == 'omp_get_num_threads':
        import omp
        return omp.nthreads(ex, st)
    if name == 'omp_get_thread_num' and 'spmd_tid' in st.ghost:
        return st.env[st.ghost['spmd_tid']]
    if name == 'accumulate' and len(args) == 3:
        b, e = rvn(ex, st, args[0]), rvn(ex, st, args[1])
        if isinstance(b, VecIter) and isinstance(e, VecIter):
            rid = st.objs[b.o.id]['rid']
            if st.regs[rid].sort == I:
                z0 = ex.as_int(rvn(ex, st, args[2]))
                return z0 + terms.ISUM.z(st.heap[rid], b.i, e.i)
    h = ex.opts.get('functions', {}).get(name)
    if h is not None:
        r = h(ex, st, f, args, n)
        if r is not NotImplemented:
            return r
    return NOPE




def sort_sorted(ex, st, args, n):
    """std::sort of a range that is already in increasing order by the given comparator (an obligation): nothing moves"""
    a, b, lam = rvn(ex, st, args[0]), rvn(ex, st, args[1]), rvn(ex, st, args[2])
    if type(a) != type(b) or not isinstance(a, (VecIter, VVIter)) or not isinstance(lam, E.LambdaVal):
        raise E.Unsupported('sort at ' + where(n))
    k, l = fresh('srt'), fresh('srt')
    s = st.copy()
    s.assume(z3.And(a.i <= k, k < l, l < b.i))
    el = lambda i: vv_elem(ex, s, a.v, i, n) if isinstance(a, VVIter) else vec_elem(ex, s, a.o, i, n)
    r = ex.call_lambda(s, lam, [E.PreVal(el(k)), E.PreVal(el(l))], n)
    ex.oblige(s, ex.as_bool(r), 'sorted-already(increasing by the comparator)', n)
    return None


def free(ex, st, p, n):
    if isinstance(p, E.AllocPtr) or p is None:
        return None
    if isinstance(p, E.Ptr):
        if p.null:
            return None
        ex.oblige(st, z3.BoolVal(st.alive.get(p.reg, None) is True), 'free-of-live-allocation', n)
        ex.oblige(st, p.off == 0, 'free-of-block-start', n)
        st.alive[p.reg] = False
        return None
    return None


def new_expr(ex, st, n):
    t = E.pointee(ty(n))
    c = [x for x in inner(n) if x.get('kind') != 'CXXOperatorCallExpr' or True]
    if n.get('isArray'):
        ln = ex.as_int(rvn(ex, st, c[0]))
        p = E.AllocPtr(ln).typed(ex, st, t)
        return p
    h = ex.opts.get('new_hook')
    if h is not None:
        r = h(ex, st, t, c, n)
        if r is not NotImplemented:
            return r
    o = None
    ce = None
    for x in c:
        s = E.strip(x, casts=False)
        if s.get('kind') == 'CXXConstructExpr':
            ce = s
    if ce is None:
        raise E.Unsupported('new ' + str(t))
    v = ex.ev(st, ce)
    if isinstance(v, E.ObjRef):
        st.alive[v.id] = True
        return E.ObjPtr(v)
    raise E.Unsupported('new ' + str(t))


def delete_expr(ex, st, n):
    v = rvn(ex, st, inner(n)[0])
    if isinstance(v, E.ObjPtr):
        if v.ref is not None:
            ex.oblige(st, z3.BoolVal(st.alive.get(v.ref.id, None) is True), 'free-of-live-allocation', n)
            st.alive[v.ref.id] = False
        return None
    return free(ex, st, v, n)


def construct(ex, st, t, c, n):
    if set_type(t) and not [x for x in c if x.get('kind') != 'CXXDefaultArgExpr']:
        return new_set(ex, st)
    if E.eig(t) is not None:
        real = [x for x in c if x.get('kind') != 'CXXDefaultArgExpr']
        if not real:
            return Num.atom(fresh('uninit', R), 'm')
        if len(real) == 1:
            v = rvn(ex, st, real[0])
            if isinstance(v, Num):
                return Num('m', v.p) if not v.p else v
        raise E.Unsupported('Eigen constructor at ' + where(n))
    if is_eigen(t) and len(c) == 1:
        v = rvn(ex, st, c[0])
        if isinstance(v, Num):
            return v
    if is_eigen(t) and len(c) >= 1 and 'scalar_' not in t:
        # conversion of an expression
        v = rvn(ex, st, c[0])
        if isinstance(v, Num):
            return v
    et = vec_type(t)
    if et is not None:
        real = [x for x in c if x.get('kind') != 'CXXDefaultArgExpr']
        if not real:
            return new_vec(ex, st, t, 0)
        if len(real) == 1:
            a = tobj(ex, st, ex.ev(st, real[0]), n)
            if isvec(ex, st, a):
                mv = ('&&' in ((n.get('ctorType') or {}).get('qualType', '')))
                if mv:
                    return a
                return ex.clone_obj(st, a)
            ln = ex.as_int(a)
            ex.oblige(st, ln >= 0, 'vector-size-nonnegative', n)
            return new_vec(ex, st, t, ln)
        if len(real) == 2:
            first = rvn(ex, st, real[0])
            val = rvn(ex, st, real[1])
            if isinstance(first, E.Ptr) and isinstance(val, E.Ptr):
                return vec_from_range(ex, st, t, first, val, n)
            if isinstance(first, SetIter) and isinstance(val, SetIter) and first.s.rid == val.s.rid and not first.end and val.end and E.is_int(et):
                return vec_from_set(ex, st, t, first.s, n)
            ln = ex.as_int(first)
            ex.oblige(st, ln >= 0, 'vector-size-nonnegative', n)
            o = new_vec(ex, st, t, ln)
            rid = st.objs[o.id]['rid']
            r = st.regs[rid]
            if not r.fields:
                z = val.z() if isinstance(val, Num) else val
                if z.sort() != r.sort:
                    z = ex.as_num(z).z() if r.sort == R else ex.as_int(z)
                st.heap[rid] = z3.K(I, z)
                return o
        raise E.Unsupported('vector constructor at ' + where(n))
    if '(lambda' in t and len(c) == 1:
        return rvn(ex, st, c[0])
    if pair_type(t) is not None and len(c) == 1:
        v = rvn(ex, st, c[0])
        if isinstance(v, (PairVal, VVElem)):
            return v
    if 'basic_string' in t or t.endswith('string'):
        if c:
            try:
                v = rvn(ex, st, c[0])
                if isinstance(v, E.Str):
                    return v
            except E.Unsupported:
                pass
        return E.Opaque('string')
    if t.startswith('std::') and ('error' in t or 'exception' in t or 'stream' in t or 'invalid_argument' in t):
        return E.Opaque(t)
    if 'iterator' in t and c:
        return rvn(ex, st, c[0])
    m = re.match(r'std::array<(.*), (\d+)>$', t)
    if m and c:
        v = rvn(ex, st, c[0])
        return v
    if m:
        return ex.local_array(st, m.group(1), int(m.group(2)), None)
    return NOPE


def construct_into(ex, st, t, c, n, obj):
    et = vec_type(t)
    if et is not None:
        v = construct(ex, st, t, c, n)
        if isinstance(v, E.ObjRef):
            st.objs[obj.id] = dict(st.objs[v.id])
            return True
    if 'basic_string' in t:
        return True
    return False


def initlist(ex, st, t, c, n):
    m = re.match(r'std::array<(.*), (\d+)>$', t)
    if m:
        x = c[0] if len(c) == 1 and c[0].get('kind') == 'InitListExpr' else n
        vals = [rvn(ex, st, y) for y in inner(x)]
        return ex.local_array(st, m.group(1), int(m.group(2)), vals)
    m = re.match(r'(.*)\[(\d+)\]$', t)
    if m:
        return ex.local_array(st, m.group(1), int(m.group(2)), [rvn(ex, st, y) for y in c])
    return NOPE


def default_value(ex, st, t):
    if set_type(t):
        return new_set(ex, st)
    if vec_type(t) is not None:
        return new_vec(ex, st, t, 0)
    if 'basic_string' in t:
        return E.Opaque('string')
    m = re.match(r'std::array<(.*), (\d+)>$', t)
    if m:
        v = ex.local_array(st, m.group(1), int(m.group(2)), None)
        ex.arrays.add(v.reg)
        return v
    if t.startswith('std::') and 'stream' in t:
        return E.Opaque(t)
    return None


def range_for(ex, st, n):
    """for(decl : container): the loop over iterators it stands for"""
    c = n.get('inner', [])
    rng, beg, end, cond, inc, var, body = c[1:8]
    cur = [(st, E.Flow.NORMAL, None)]
    if c[0] and c[0].get('kind'):
        cur = ex.stmt(st, c[0])
    for d in (rng, beg, end):
        cur = [r for s, fl, v in cur for r in (ex.stmt(s, d) if fl == E.Flow.NORMAL else [(s, fl, v)])]
    whole = dict(kind='CompoundStmt', inner=[var, body], range=n.get('range'))
    key = id(n)
    if key not in _rf:
        _rf[key] = (n, whole)
    whole = _rf[key][1]
    return [r for s, fl, v in cur for r in (ex.loop(s, cond, inc, whole, n) if fl == E.Flow.NORMAL else [(s, fl, v)])]


_rf = {}
