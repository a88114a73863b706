"""Symbolic executor / verification-condition generator over clang's typed AST.

One call of Task.run executes one function of /repo from its contract's precondition for *all* inputs:
 - straight-line code and branches: path enumeration with path conditions;
 - loops: inductive invariants.  Candidate invariants come from the contract (predicates over roles: the loop's induction
   variable, entry state, current state) and from generic frame templates; a Houdini fixpoint keeps the inductive ones;
 - calls: callee's contract if one is registered (and separately verified), otherwise the callee's body is interpreted;
 - every array access, assert, and store raises a named obligation.
Obligations go to the solvers in solve.py.
"""
import z3, re, time, os
from fractions import Fraction
import astdb
from astdb import ty, inner, where
import terms
from terms import Num, num, fresh, I, R
import solve

TRANSPARENT = ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'ParenExpr', 'CXXBindTemporaryExpr', 'ConstantExpr',
               'SubstNonTypeTemplateParmExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr',
               'CXXReinterpretCastExpr', 'CStyleCastExpr', 'ImplicitCastExpr', 'CXXStdInitializerListExpr',
               'CXXDynamicCastExpr')


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------------------------------------------------- values
class Ptr:
    """pointer into an array region; off counts scalars of the region; es = scalars per pointee; et = pointee type"""
    __slots__ = ('reg', 'off', 'es', 'et')

    def __init__(self, reg, off, es, et):
        self.reg, self.off, self.es, self.et = reg, off, es, et

    @property
    def null(self):
        return self.reg is None

    def __repr__(self):
        return 'Ptr(%s+%s:%s)' % (self.reg, self.off, self.et)


class ObjRef:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return 'Obj(%s)' % self.id


class ObjPtr:
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = ref

    @property
    def null(self):
        return self.ref is None


class FnRef:
    def __init__(self, node, name, fid):
        self.node, self.name, self.fid = node, name, fid


class Str:
    def __init__(self, z):
        self.z = z


class Opaque:
    """value the executor does not model (streams, exceptions ...)"""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return 'Opaque(%s)' % self.what


class LV:
    pass


class LLocal(LV):
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key


class LField(LV):
    __slots__ = ('oid', 'name')

    def __init__(self, oid, name):
        self.oid, self.name = oid, name


class LElem(LV):
    """unit idx of region; sub: flat scalar component inside a block unit (None: whole unit)"""
    __slots__ = ('reg', 'idx', 'sub', 'et')

    def __init__(self, reg, idx, sub, et):
        self.reg, self.idx, self.sub, self.et = reg, idx, sub, et


class LComp(LV):
    """component of a block-valued lvalue"""
    __slots__ = ('base', 'r', 'n')

    def __init__(self, base, r, n):
        self.base, self.r, self.n = base, r, n


class LTemp(LV):
    __slots__ = ('val',)

    def __init__(self, val):
        self.val = val


class Region:
    __slots__ = ('id', 'sort', 'unit', 'len', 'kind', 'stor', 'const', 'fields', 'racy', 'owner')

    def __init__(self, id, sort, unit, len_, kind, stor=0, const=False, fields=None):
        self.id, self.sort, self.unit, self.len, self.kind, self.stor, self.const = id, sort, unit, len_, kind, stor, const
        self.fields = fields


class State:
    __slots__ = ('env', 'heap', 'objs', 'pc', 'depth', 'log', 'regs', 'ghost', 'this', 'alive', 'trace')

    def __init__(self):
        self.env, self.heap, self.objs, self.pc = {}, {}, {}, []
        self.depth = 0
        self.log = None
        self.regs = {}
        self.ghost = {}
        self.this = [None]
        self.alive = {}
        self.trace = ()

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.objs = {k: dict(v) for k, v in self.objs.items()}
        s.pc = list(self.pc)
        s.depth = self.depth
        s.log = self.log
        s.regs = dict(self.regs)
        s.ghost = dict(self.ghost)
        s.this = list(self.this)
        s.alive = dict(self.alive)
        s.trace = self.trace
        return s

    def become(self, o):
        for k in State.__slots__:
            setattr(self, k, getattr(o, k))

    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        self.pc.append(f)


class Obligation:
    def __init__(self, name, where, ok, how, secs, detail=None, model=None):
        self.name, self.where, self.ok, self.how, self.secs, self.detail, self.model = name, where, ok, how, secs, detail, model


class Flow:
    NORMAL, BREAK, CONT, RET, THROW = 'n', 'b', 'c', 'r', 't'


class Fork(Exception):
    pass


def is_z(v):
    return z3.is_expr(v)


def norm_ty(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for p in ('const ', 'volatile ', 'struct ', 'class '):
            if t.startswith(p):
                t = t[len(p):].strip()
                ch = True
        for sfx in (' const', '__restrict', ' &', ' &&', '&&', '&'):
            if t.endswith(sfx):
                t = t[:-len(sfx)].strip()
                ch = True
    return t


def pointee(t):
    t = norm_ty(t)
    while t.endswith('const') or t.endswith('__restrict'):
        t = t[:-5].strip() if t.endswith('const') else t[:-10].strip()
    if t.endswith('*'):
        return norm_ty(t[:-1])
    m = re.match(r'(.*)\[\d*\]$', t)
    if m:
        return norm_ty(m.group(1))
    return None


INTS = {'int', 'long', 'unsigned int', 'unsigned long', 'short', 'char', 'unsigned char', 'long long', 'unsigned short',
        'unsigned long long', 'size_t', 'std::size_t', 'signed char', 'std::ptrdiff_t', 'ptrdiff_t', 'Eigen::Index', 'Index'}
EIG = re.compile(r'^(?:Eigen::)?Matrix<(?:double|float), (-?\d+), (-?\d+)(?:, (.+?))?(?:, -?\d+, -?\d+)?>$')


def eig(t):
    """(rows, cols, storage) of a fixed-size Eigen matrix type or None"""
    m = EIG.match(norm_ty(t))
    if not m:
        return None
    st = m.group(3)
    stor = 0
    if st is not None:
        if 'Row' in st or re.search(r'\b1\b', st) and not 'U' in st:
            stor = 1
        if re.search(r'\)1U?', st) or st.strip() in ('1', '1U'):
            stor = 1
    return int(m.group(1)), int(m.group(2)), stor


def is_int(t):
    t = norm_ty(t)
    return t in INTS


def is_float(t):
    return norm_ty(t) in ('double', 'float')


def lin(e):
    """affine normal form of an integer term: ({atom id: (atom, coef)}, const)"""
    e = z3.simplify(e, som=True) if not z3.is_int_value(e) else e
    at, c = {}, 0

    def add(x, k):
        nonlocal c
        if z3.is_int_value(x):
            c += k * x.as_long()
            return
        d = x.decl().kind()
        if d == z3.Z3_OP_ADD:
            for y in x.children():
                add(y, k)
        elif d == z3.Z3_OP_SUB:
            ch = x.children()
            add(ch[0], k)
            for y in ch[1:]:
                add(y, -k)
        elif d == z3.Z3_OP_UMINUS:
            add(x.arg(0), -k)
        elif d == z3.Z3_OP_MUL and z3.is_int_value(x.arg(0)):
            ch = x.children()[1:]
            rest = ch[0] if len(ch) == 1 else z3.Product(ch)
            add(rest, k * x.arg(0).as_long())
        else:
            i = x.get_id()
            a, v = at.get(i, (x, 0))
            at[i] = (x, v + k)
    add(e, 1)
    return {i: v for i, v in at.items() if v[1] != 0}, c


def split_off(off, unit):
    """off = unit*q + r syntactically: returns (q, r) with r z3 term whose coefficients are not multiples of unit"""
    if unit == 1:
        return off, None
    at, c = lin(off)
    q = [a * (k // unit) for a, k in at.values() if k % unit == 0 and k // unit != 1]
    q += [a for a, k in at.values() if k == unit]
    r = [a * k if k != 1 else a for a, k in at.values() if k % unit != 0]
    qc, rc = divmod(c, unit)
    if r and rc != 0 and c >= 0:
        pass
    q = z3.Sum([z3.IntVal(qc)] + q) if q else z3.IntVal(qc)
    q = z3.simplify(q)
    rr = z3.simplify(z3.Sum([z3.IntVal(rc)] + r)) if r else z3.IntVal(rc)
    return q, rr


# ----------------------------------------------------------------------------------------------------------- executor
class Exec:
    def __init__(self, db, tu, contracts=None, opts=None):
        self.arrays = set()          # regions that are std::array members (value semantics)
        self.db, self.tu = db, tu
        self.contracts = contracts or {}
        self.opts = opts or {}
        self.obls = []
        self.warm = {}
        self.mode = 'final'       # 'final' | 'dry' | 'houdini'
        self.cand_hook = None
        self.exit_hook = None
        self.inst_hook = None
        self.pair_hook = None
        self.divs = {}               # symbolic divisions: (dividend, divisor) -> quotient
        self.nthreads = None
        self.loopstack = []
        self.callstack = []
        self.stats = dict(queries=0, solver_s=0.0, loops=0, invs=0, inlined=set(), builtin=set(), contracts=set(),
                          par_loops=0)
        self.choices = None
        self.store_hooks = {}
        self.throw_ok = None
        self.par_policy = self.opts.get('par', None)
        self.deadline = None
        self.timeout = self.opts.get('timeout', 8000)
        self.objn = 0
        self.regn = 0
        self.inv_report = {}
        self.ts = z3.IntVal
        self.atomic = False
        self.stopfail = self.opts.get('stopfail', 12)

    # ---- solver interface
    def prove(self, st_or_pc, goal, timeout=None, quick=False):
        pc = st_or_pc.pc if isinstance(st_or_pc, State) else st_or_pc
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        t = time.time()
        r = solve.prove(pc, goal, timeout or self.timeout, quick=quick)
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        if self.deadline and time.time() > self.deadline:
            raise TimeoutError('verification time budget exhausted')
        return r

    def feasible(self, st, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.mode == 'dry':
            # the modified set may be an over-approximation: the quantifier-free part of the path condition is enough
            s = z3.SimpleSolver()
            s.set('timeout', 200)
            s.add(*[f for f in st.pc if not terms.quantified(f)])
            s.add(c)
            return s.check() != z3.unsat
        return not self.prove(st, z3.Not(c), timeout=self.opts.get('feas_ms', 400), quick=True).ok

    def oblige(self, st, goal, name, node=None, assume=True):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if self.mode == 'final':
            w = where(node) if node is not None else ''
            g = z3.simplify(goal)
            if z3.is_true(g):
                self.obls.append(Obligation(name, w, True, 'simplify', 0.0))
            else:
                t = time.time()
                r = self.prove(st, goal)
                if not r.ok:
                    r = solve.prove_hard(st.pc, goal, self.opts.get('hard_ms', 8000))
                self.obls.append(Obligation(name, w, r.ok, r.how, time.time() - t,
                                            None if r.ok else str(z3.simplify(goal))[:1500], r.model))
                if not r.ok and sum(not o.ok for o in self.obls) >= self.stopfail:
                    raise TimeoutError('too many failed obligations')
        if assume:
            st.assume(goal)

    # ---- regions and objects
    def new_region(self, st, name, sort, unit, length, kind, stor=0, const=False, init=None, fields=None):
        self.regn += 1
        rid = name if name not in st.regs else '%s#%d' % (name, self.regn)
        st.regs[rid] = Region(rid, sort, unit, length, kind, stor, const, fields)
        if fields:
            for f, srt in fields.items():
                st.heap[rid + '.' + f] = fresh(rid + '.' + f, z3.ArraySort(I, srt))
                st.regs[rid + '.' + f] = Region(rid + '.' + f, srt, 1, length, 's', 0, const)
        else:
            st.heap[rid] = init if init is not None else fresh(rid, z3.ArraySort(I, sort))
        return rid

    def new_obj(self, st, cls, fields=None):
        self.objn += 1
        oid = '%s@%d' % (cls, self.objn)
        st.objs[oid] = dict(fields or {})
        st.objs[oid]['__cls'] = cls
        return ObjRef(oid)

    # ---- lvalues
    def deref(self, st, p, node, et=None):
        if isinstance(p, ObjPtr):
            if p.ref is None:
                self.oblige(st, False, 'null-deref', node)
                raise PathEnd()
            return p.ref
        if isinstance(p, AddrOf):
            return p.lv
        if isinstance(p, LElem) or hasattr(p, 'vread') or hasattr(p, 'member'):
            return p
        if not isinstance(p, Ptr):
            raise Unsupported('deref of %r' % (p,))
        if p.null:
            self.oblige(st, False, 'null-deref', node)
            raise PathEnd()
        et = et or p.et
        r = st.regs[p.reg]
        if r.fields:
            return LElem(p.reg, p.off, None, et)
        q, s = split_off(p.off, r.unit)
        e = eig(et)
        if e is not None:
            n = e[0] * e[1]
            if r.unit == n:
                self.oblige(st, s == 0 if s is not None else True, 'block-alignment', node) if s is not None else None
                if e[1] > 1 and e[0] > 1 and e[2] != r.stor:
                    self.oblige(st, False, 'block-storage-order', node)
                return LElem(p.reg, q, None, et)
            raise Unsupported('block access of %s in region %s of unit %d' % (et, p.reg, r.unit))
        if r.unit == 1:
            return LElem(p.reg, q, None, et)
        # scalar access inside a block unit
        s = z3.simplify(s)
        if not z3.is_int_value(s):
            inr = z3.And(s >= 0, s < r.unit)
            if self.mode != 'dry' and not self.prove(st, inr, timeout=2000).ok:
                # generic flat access
                off = p.off
                return LElem(p.reg, off / r.unit, off % r.unit, et)
        else:
            pass
        return LElem(p.reg, q, s, et)

    def bounds(self, st, lv, node, what):
        r = st.regs[lv.reg]
        if st.alive.get(lv.reg) is False:
            self.oblige(st, False, 'use-after-free(%s)' % self.rname(lv.reg), node)
        if r.len is not None:
            self.oblige(st, z3.And(lv.idx >= 0, lv.idx < r.len), 'in-bounds(%s of %s)' % (what, self.rname(lv.reg)), node)

    def rname(self, rid):
        return rid

    def read(self, st, lv, node):
        if isinstance(lv, LLocal):
            if self.readtrack is not None:
                self.readtrack.append((('l', lv.key), None))
            if lv.key not in st.env:
                raise Unsupported('read of undeclared local ' + str(lv.key))
            v = st.env[lv.key]
            if v is None:
                t = self.localtypes.get(lv.key, '')
                v = self.havoc_value(t, 'uninit')
                st.env[lv.key] = v
            return v
        if isinstance(lv, LField):
            o = st.objs[lv.oid]
            if lv.name not in o or o[lv.name] is None:
                t = self.fieldtype(o.get('__cls'), lv.name)
                o[lv.name] = self.havoc_value(t, 'uninit_' + lv.name)
            return o[lv.name]
        if isinstance(lv, LElem):
            self.bounds(st, lv, node, 'read')
            if self.readtrack is not None:
                self.readtrack.append((lv.reg, lv.idx))
            if st.log is not None and not self.atomic and self.mode != 'dry':
                st.log.append(('r', lv.reg, lv.idx, lv.sub, list(st.pc)))
            r = st.regs[lv.reg]
            if r.fields:
                return lv
            return self.load(st, lv)
        if isinstance(lv, LComp):
            b = self.read(st, lv.base, node)
            return terms.component(b, lv.r)
        if isinstance(lv, LTemp):
            return lv.val
        if isinstance(lv, ObjRef):
            return lv
        if hasattr(lv, 'vread'):
            return lv.vread(st)
        raise Unsupported(('read %r' % (lv,))[:160])

    def load(self, st, lv):
        r = st.regs[lv.reg]
        v = z3.simplify(z3.Select(st.heap[lv.reg], lv.idx))
        if r.sort == R:
            n = num(v, r.kind)
            if lv.sub is not None:
                return terms.component(n, lv.sub)
            return n
        return v

    def write(self, st, lv, val, node):
        if isinstance(lv, LLocal):
            if self.privcheck is not None:
                self.privcheck(st, lv, node)
            st.env[lv.key] = val
            self.note_mod(('l', lv.key))
            return
        if isinstance(lv, LField):
            st.objs[lv.oid][lv.name] = val
            self.note_mod(('f', lv.oid, lv.name))
            return
        if isinstance(lv, LElem):
            r = st.regs[lv.reg]
            self.bounds(st, lv, node, 'write')
            if r.const:
                self.oblige(st, False, 'frame: %s is read-only' % lv.reg, node)
            if st.log is not None and self.mode != 'dry':
                st.log.append(('a' if self.atomic else 'w', lv.reg, lv.idx, lv.sub, list(st.pc)))
            if self.mode == 'final' and not self.atomic and any(lv.reg.startswith(p) for p in self.opts.get('atomicwrites', ())):
                self.oblige(st, False, 'concurrent callers: the addition is atomic', node)
            if lv.sub is not None:
                cur = num(z3.simplify(z3.Select(st.heap[lv.reg], lv.idx)), 'm')
                val = num(self.upd(cur, lv.sub, val, r.unit), 'm')
            z = val.z() if isinstance(val, Num) else val
            if r.sort == I and z3.is_bool(z):
                z = z3.If(z, z3.IntVal(1), z3.IntVal(0))
            if lv.reg in self.store_hooks and self.mode == 'final':
                for nm, g in self.store_hooks[lv.reg](st, lv.idx, val):
                    self.oblige(st, g, nm, node)
            st.heap[lv.reg] = z3.Store(st.heap[lv.reg], lv.idx, z)
            self.note_mod(('h', lv.reg), lv.idx)
            return
        if isinstance(lv, LComp):
            cur = self.read(st, lv.base, node)
            self.write(st, lv.base, num(self.upd(cur, lv.r, val, lv.n), 'm'), node)
            return
        if isinstance(lv, LTemp):
            lv.val = val
            return
        if hasattr(lv, 'vwrite'):
            lv.vwrite(st, val)
            return
        raise Unsupported('write to %r' % (lv,))

    privcheck = None
    readtrack = None
    rangeonly = False

    def upd(self, cur, r, val, n):
        """cur with component r := val; when all n components are known, rebuild the block"""
        r = r if z3.is_expr(r) else z3.IntVal(r)
        base = cur.z()
        if not isinstance(val, Num):
            val = num(z3.ToReal(val) if val.sort() == I else val, 's')
        t = terms.upd(base, r, val.z())
        # collect concrete updates
        d, x = {}, t
        while x.num_args() == 3 and x.decl().eq(terms.upd):
            if not z3.is_int_value(x.arg(1)):
                return t
            d.setdefault(x.arg(1).as_long(), x.arg(2))
            x = x.arg(0)
        if x.decl().name().startswith('mk%d' % 0):
            pass
        if len(d) == n and all(k in d for k in range(n)):
            return terms.mkblk(n, 1, [d[k] for k in range(n)])
        return t

    modstack = None

    def note_mod(self, key, idx=None):
        if self.modstack:
            for m in self.modstack:
                m.setdefault(key, [])
                if idx is not None and len(m[key]) < 40:
                    m[key].append(idx)

    # ---- typing helpers
    localtypes = {}

    def fieldtype(self, cls, name):
        for tu in [self.tu] + list(self.db.tus.values()):
            r = tu.recname.get(self.clskey(cls))
            while r:
                for f in r.fields:
                    if f.get('name') == name:
                        return ty(f)
                nb = None
                for b in r.bases:
                    nb = tu.recname.get(self.clskey(b))
                r = nb
        return ''

    def clskey(self, cls):
        c = norm_ty(cls or '')
        c = c.replace('blasted::', '')
        c = re.sub(r'\s+', '', c)
        c = c.replace('Eigen::ColMajor', '0').replace('Eigen::RowMajor', '1').replace('(Eigen::StorageOptions)', '')
        c = c.replace('ColMajor', '0').replace('RowMajor', '1')
        c = re.sub(r'\b([01])U\b', r'\1', c)
        return c

    def record(self, cls):
        k = self.clskey(cls)
        for tu in [self.tu] + list(self.db.tus.values()):
            if k in tu.recname:
                return tu.recname[k]
        return None

    def havoc_value(self, t, name):
        t0 = norm_ty(t)
        if is_int(t0) or t0.startswith('enum ') or self.is_enum(t0):
            return fresh(name, I)
        if t0 == 'bool':
            return fresh(name, z3.BoolSort())
        if is_float(t0):
            return Num.atom(fresh(name, R), 's')
        if eig(t0):
            e = eig(t0)
            return Num.atom(fresh(name, R), 'm')
        if pointee(t0):
            return Opaque('uninit pointer ' + name)
        return Opaque('uninit ' + t0)

    def is_enum(self, t):
        t = t.replace('blasted::', '')
        return t in ('FactInit', 'ApplyInit', 'BlastedSolverType', 'StorageOptions', 'Eigen::StorageOptions', 'StorageType',
                     'MMStorage', 'COOMMDataType') or t.endswith('Type') and False

    # ---- expressions -------------------------------------------------------------------------------------------
    def as_int(self, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if z3.is_expr(v) and z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if z3.is_expr(v) and v.sort() == I:
            return v
        raise Unsupported('int of %r' % (v,))

    def as_bool(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if z3.is_expr(v):
            if z3.is_bool(v):
                return v
            if v.sort() == I:
                return v != 0
        if isinstance(v, Ptr) or isinstance(v, ObjPtr):
            return z3.BoolVal(not v.null)
        if isinstance(v, Num):
            return v.z() != 0
        raise Unsupported('bool of %r' % (v,))

    def as_num(self, v, k='s'):
        if isinstance(v, Num):
            return v
        if isinstance(v, (int, bool)):
            return Num.const(int(v), 's')
        if z3.is_expr(v):
            if z3.is_bool(v):
                v = self.as_int(v)
            if v.sort() == I:
                v = z3.simplify(v)
                if z3.is_int_value(v):
                    return Num.const(v.as_long())
                return Num.atom(z3.ToReal(v), 's')
            if v.sort() == R:
                return num(v, k)
        raise Unsupported('number of %r' % (v,))

    def rv(self, st, n):
        """value (lvalues are loaded)"""
        v = self.ev(st, n)
        if isinstance(v, LV) or hasattr(v, 'vread'):
            return self.read(st, v, n)
        return v

    def ev(self, st, n):
        k = n.get('kind')
        m = getattr(self, 'e_' + k, None)
        if m is None:
            if k in TRANSPARENT:
                return self.e_cast(st, n)
            raise Unsupported('expression %s at %s' % (k, where(n)))
        return m(st, n)

    def lastexpr(self, n):
        c = [x for x in inner(n) if x.get('kind') not in ('TemplateArgument', 'NonTypeTemplateParmDecl')]
        return c[-1]

    def e_cast(self, st, n):
        ck = n.get('castKind')
        sub = self.lastexpr(n)
        t = ty(n)
        if n['kind'] == 'SubstNonTypeTemplateParmExpr':
            return self.ev(st, sub)
        if ck is None or ck in ('NoOp', 'FunctionToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion',
                                'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic', 'AtomicToNonAtomic',
                                'BuiltinFnToFnPtr'):
            v = self.ev(st, sub)
            if n['kind'] == 'CXXDynamicCastExpr':
                return self.dyncast(st, v, t, n)
            if ck in ('DerivedToBase', 'UncheckedDerivedToBase'):
                return v
            return v
        if ck == 'LValueToRValue':
            return self.rv(st, sub)
        if ck in ('IntegralCast', 'FloatingCast'):
            v = self.rv(st, sub)
            if z3.is_expr(v) and z3.is_bool(v) and ck == 'IntegralCast' and is_int(t):
                return self.as_int(v)
            if z3.is_expr(v) and v.sort() == I and ck == 'IntegralCast' and norm_ty(t).startswith('unsigned'):
                self.unsigned_note(st, v, n)
            return v
        if ck == 'IntegralToFloating':
            return self.as_num(self.rv(st, sub))
        if ck == 'FloatingToIntegral':
            v = self.rv(st, sub)
            if v.isconst():
                c = v.constval()
                return z3.IntVal(int(c))
            if z3.is_app(v.z()) and v.z().decl().kind() == z3.Z3_OP_TO_REAL:
                return v.z().arg(0)
            f = z3.Function('d2i', R, I)
            return f(v.z())
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return self.as_bool(self.rv(st, sub))
        if ck in ('NullToPointer',):
            return self.nullptr(t)
        if ck == 'ArrayToPointerDecay':
            return self.ev(st, sub)
        if ck == 'BitCast':
            v = self.rv(st, sub)
            return self.ptrcast(st, v, t)
        if ck == 'ToVoid':
            return self.ev(st, sub)
        raise Unsupported('cast %s at %s' % (ck, where(n)))

    def unsigned_note(self, st, v, n):
        pass

    def nullptr(self, t):
        pt = pointee(t)
        if pt is None:
            return Ptr(None, z3.IntVal(0), 1, 'void')
        if is_int(pt) or is_float(pt) or eig(pt) or pt in ('bool', 'void'):
            return Ptr(None, z3.IntVal(0), self.esize(pt), pt)
        return ObjPtr(None)

    def esize(self, pt):
        e = eig(pt)
        if e:
            return e[0] * e[1]
        return 1

    def ptrcast(self, st, v, t):
        pt = pointee(t)
        if isinstance(v, Ptr):
            if pt is None or pt == 'void':
                return v
            return Ptr(v.reg, v.off, self.esize(pt), pt)
        if isinstance(v, AllocPtr):
            return v.typed(self, st, pt)
        return v

    def derives(self, cls, base):
        """whether cls is base or derives from it; None when cls is not known"""
        if norm_ty(cls) == norm_ty(base):
            return True
        r = self.record(cls)
        if r is None:
            return None
        return any(self.derives(b, base) for b in r.bases)

    def dyncast(self, st, v, t, n):
        target = norm_ty(re.sub(r'[&*]+\s*$', '', t.strip()).replace('const ', '').strip())
        ref = v.lv if isinstance(v, RefBox) else v
        o = ref.ref if isinstance(ref, ObjPtr) else ref
        if o is None:
            return v
        if isinstance(o, ObjRef):
            d = self.derives(st.objs[o.id].get('__cls', ''), target)
            if d is None:
                raise Unsupported('dynamic_cast of an object of unknown class at %s' % where(n))
            if not d:
                if isinstance(ref, ObjPtr):
                    return ObjPtr(None)
                raise Thrown(n)
        return v

    def e_IntegerLiteral(self, st, n):
        return z3.IntVal(int(n['value']))

    def e_CharacterLiteral(self, st, n):
        return z3.IntVal(int(n['value']))

    def e_FloatingLiteral(self, st, n):
        return Num.const(Fraction(n['value']))

    def e_CXXBoolLiteralExpr(self, st, n):
        return z3.BoolVal(bool(n['value']))

    def e_StringLiteral(self, st, n):
        v = n['value']
        import json as _j
        try:
            v = _j.loads(v)
        except Exception:
            v = v.strip('"')
        return Str(z3.StringVal(v))

    def e_CXXNullPtrLiteralExpr(self, st, n):
        return Ptr(None, z3.IntVal(0), 1, 'void')

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_ImplicitValueInitExpr(self, st, n):
        return self.zero_value(st, ty(n))

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def zero_value(self, st, t):
        t = norm_ty(t)
        if t == 'bool':
            return z3.BoolVal(False)
        if is_int(t) or self.is_enum(t):
            return z3.IntVal(0)
        if is_float(t):
            return Num.zero('s')
        if pointee(t):
            return self.nullptr(t)
        if eig(t):
            return Num.atom(fresh('uninit', R), 'm')
        raise Unsupported('zero of ' + t)

    def e_CXXThisExpr(self, st, n):
        return ObjPtr(st.this[-1])

    def e_CXXDefaultArgExpr(self, st, n):
        c = inner(n)
        if c:
            return self.ev(st, c[0])
        return Opaque('defaultarg')

    def e_CXXDefaultInitExpr(self, st, n):
        c = inner(n)
        if c:
            return self.ev(st, c[0])
        raise Unsupported('default init')

    def e_UnaryExprOrTypeTraitExpr(self, st, n):
        t = (n.get('argType') or {})
        q = norm_ty(t.get('desugaredQualType') or t.get('qualType') or '')
        # sizes are counted in array elements, so that sizeof(scalar)*n is the length n of the allocation
        return z3.IntVal(self.esize(q)) if q else z3.IntVal(1)

    def e_DeclRefExpr(self, st, n):
        d = n['referencedDecl']
        k = d['kind']
        if k in ('VarDecl', 'ParmVarDecl'):
            key = (st.depth, d['id'])
            if key in st.env:
                v = st.env[key]
                if isinstance(v, RefBox):
                    return v.lv
                if isinstance(v, ObjRef):
                    return v
                return LLocal(key)
            # enclosing frames (lambdas capture by reference; captured statements share the frame)
            for dep in range(st.depth - 1, -1, -1):
                key = (dep, d['id'])
                if key in st.env and self.opts.get('outer_ok', True):
                    v = st.env[key]
                    return v.lv if isinstance(v, RefBox) else (v if isinstance(v, ObjRef) else LLocal(key))
            node = self.tu.decl.get(d['id']) or self.curtu().decl.get(d['id'])
            g = self.globalvar(st, d, node)
            if g is not None:
                return g
            raise Unsupported('variable %s at %s' % (d.get('name'), where(n)))
        if k == 'EnumConstantDecl':
            return self.enumval(d)
        if k in astdb.FUNC:
            return FnRef(d, d.get('name'), d['id'])
        if k == 'NonTypeTemplateParmDecl':
            raise Unsupported('dependent')
        if k == 'BindingDecl':
            raise Unsupported('binding')
        raise Unsupported('ref to %s' % k)

    def curtu(self):
        return self.callstack[-1].tu if self.callstack else self.tu

    def globalvar(self, st, d, node):
        nm = d.get('name')
        if nm in ('cout', 'cerr', 'clog'):
            return Opaque('stream')
        if node is not None:
            c = [x for x in inner(node) if x.get('kind', '').endswith('Expr') or x.get('kind', '').endswith('Literal')]
            if c and 'const' in (node.get('type', {}).get('qualType', '')):
                return LTemp(self.rv(st, c[-1]))
        if 'basic_string' in (d.get('type', {}).get('qualType', '')) or 'string' in (d.get('type', {}).get('qualType', '')):
            # global const std::string with literal initialiser
            if node is not None:
                lit = find_kind(node, 'StringLiteral')
                if lit is not None:
                    return LTemp(self.e_StringLiteral(st, lit))
        return None

    def enumval(self, d):
        node = None
        for tu in [self.curtu(), self.tu]:
            node = tu.decl.get(d['id'])
            if node is not None:
                break
        nm = d.get('name')
        if nm == 'ColMajor':
            return z3.IntVal(0)
        if nm == 'RowMajor':
            return z3.IntVal(1)
        if node is not None:
            v = find_value(node)
            if v is not None:
                return z3.IntVal(int(v))
            # position in the enum
            for tu in [self.curtu(), self.tu]:
                for nid, nn in tu.decl.items():
                    if nn.get('kind') == 'EnumDecl':
                        val = -1
                        for c in inner(nn):
                            if c.get('kind') == 'EnumConstantDecl':
                                v = find_value(c)
                                val = int(v) if v is not None else val + 1
                                if c['id'] == d['id']:
                                    return z3.IntVal(val)
        raise Unsupported('enum constant %s' % nm)

    def enumbyname(self, name):
        """value of the enumerator of that name in the code under verification"""
        for tu in [self.curtu(), self.tu]:
            for nn in tu.decl.values():
                if nn.get('kind') == 'EnumConstantDecl' and nn.get('name') == name:
                    return int(str(self.enumval(nn)))
        raise Unsupported('no enumerator %s' % name)

    def e_MemberExpr(self, st, n):
        base = inner(n)[0]
        name = n.get('name')
        b = self.ev(st, base)
        if n.get('isArrow'):
            if isinstance(b, LV):
                b = self.read(st, b, base)
            b = self.deref(st, b, n)
        if isinstance(b, RefBox):
            b = b.lv
        if isinstance(b, LV) and not isinstance(b, LElem):
            v = self.read(st, b, base)
            if isinstance(v, Num) and '<bound member function' in ty(n):
                pass      # a block-valued variable: the method may write to it
            elif isinstance(v, (ObjRef, ObjPtr)) or not isinstance(b, (LLocal, LField, LTemp)):
                b = v if not isinstance(v, ObjPtr) else v.ref
            else:
                b = v
        mt = ty(n)
        if '<bound member function' in mt:
            r = Bound(b, name, n.get('referencedMemberDecl'), base)
            r.qualified = qualified_member(n, base)
            return r
        if isinstance(b, LElem) and st.regs[b.reg].fields:
            return LElem(b.reg + '.' + name, b.idx, None, mt)
        if isinstance(b, ObjRef):
            o = st.objs[b.id]
            v = o.get(name)
            if isinstance(v, ObjRef):
                return v
            if isinstance(v, RefBox):
                return v.lv
            return LField(b.id, name)
        if hasattr(b, 'member'):
            return b.member(self, st, name)
        if isinstance(b, Opaque):
            return Opaque('member of ' + b.what)
        raise Unsupported('member %s of %r at %s' % (name, b, where(n)))

    def e_ArraySubscriptExpr(self, st, n):
        a, b = inner(n)
        p = self.rv(st, a)
        i = self.rv(st, b)
        if isinstance(p, (int,)) or (z3.is_expr(p) and p.sort() == I):
            p, i = i, p
        if isinstance(p, Ptr):
            if p.null:
                self.oblige(st, False, 'null-deref', n)
                raise PathEnd()
            return self.deref(st, Ptr(p.reg, self.padd(p, self.as_int(i)), p.es, p.et), n)
        if hasattr(p, 'at'):
            return p.at(st, self.as_int(i), n)
        raise Unsupported('subscript of %r at %s' % (p, where(n)))

    def padd(self, p, i):
        return z3.simplify(p.off + (i * p.es if p.es != 1 else i))

    def e_UnaryOperator(self, st, n):
        op = n['opcode']
        sub = inner(n)[0]
        if op == '&':
            v = self.ev(st, sub)
            return self.addrof(st, v, n)
        if op == '*':
            p = self.rv(st, sub)
            return self.deref(st, p, n)
        if op in ('++', '--'):
            lv = self.ev(st, sub)
            old = self.read(st, lv, n)
            d = 1 if op == '++' else -1
            if isinstance(old, Ptr):
                new = Ptr(old.reg, z3.simplify(old.off + d * old.es), old.es, old.et)
            elif isinstance(old, Num):
                new = old + Num.const(d)
            else:
                new = z3.simplify(self.as_int(old) + d)
            self.write(st, lv, new, n)
            return LTemp(old) if n.get('isPostfix') else lv
        v = self.rv(st, sub)
        if op == '!':
            return z3.Not(self.as_bool(v))
        if op == '-':
            return -v if isinstance(v, Num) else z3.simplify(-self.as_int(v))
        if op == '+':
            return v
        if op == '~':
            raise Unsupported('bitwise not')
        raise Unsupported('unary ' + op)

    def addrof(self, st, v, n):
        if isinstance(v, ObjRef):
            return ObjPtr(v)
        if isinstance(v, LElem):
            r = st.regs[v.reg]
            off = v.idx * r.unit
            if v.sub is not None:
                off = off + v.sub
            return Ptr(v.reg, z3.simplify(off), self.esize(v.et), v.et)
        if isinstance(v, LLocal):
            return AddrOf(v)
        if isinstance(v, LField):
            return AddrOf(v)
        raise Unsupported('address of %r at %s' % (v, where(n)))

    def arith(self, st, op, a, b, n, t=None):
        if isinstance(a, (Ptr,)) or isinstance(b, Ptr):
            if op in ('==', '!='):
                na, nb = getattr(a, 'null', None), getattr(b, 'null', None)
                if isinstance(a, Ptr) and isinstance(b, Ptr):
                    if a.null or b.null:
                        r = z3.BoolVal(a.null == b.null and a.null)
                    else:
                        r = z3.And(z3.BoolVal(a.reg == b.reg), a.off == b.off)
                elif isinstance(a, Opaque) or isinstance(b, Opaque):
                    r = fresh('ptrcmp', z3.BoolSort())
                else:
                    r = z3.BoolVal(na == nb and bool(na))
                return r if op == '==' else z3.Not(r)
            if op == '+':
                if isinstance(b, Ptr):
                    a, b = b, a
                return Ptr(a.reg, self.padd(a, self.as_int(b)), a.es, a.et)
            if op == '-':
                if isinstance(b, Ptr):
                    d = z3.simplify(a.off - b.off)
                    return d if a.es == 1 else d / a.es
                return Ptr(a.reg, self.padd(a, -self.as_int(b)), a.es, a.et)
            if op in ('<', '>', '<=', '>='):
                return self.arith(st, op, a.off, b.off, n)
        if isinstance(a, ObjPtr) or isinstance(b, ObjPtr):
            na, nb = getattr(a, 'null', False), getattr(b, 'null', False)
            same = (na and nb) or (isinstance(a, ObjPtr) and isinstance(b, ObjPtr) and a.ref is not None and b.ref is not None
                                   and a.ref.id == b.ref.id)
            return z3.BoolVal(same if op == '==' else not same)
        if isinstance(a, Num) or isinstance(b, Num):
            a, b = self.as_num(a), self.as_num(b)
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op == '/':
                if b.k == 'm':
                    raise Unsupported('divide by block')
                return a * terms.recip(b)
            za, zb = a.z(), b.z()
            return {'<': za < zb, '>': za > zb, '<=': za <= zb, '>=': za >= zb, '==': za == zb, '!=': za != zb}[op]
        if isinstance(a, Str) or isinstance(b, Str):
            r = a.z == b.z
            return r if op == '==' else z3.Not(r)
        if op in ('&&', '||'):
            return z3.And(self.as_bool(a), self.as_bool(b)) if op == '&&' else z3.Or(self.as_bool(a), self.as_bool(b))
        if op in ('==', '!=') and z3.is_expr(a) and z3.is_expr(b) and z3.is_bool(a) and z3.is_bool(b):
            return a == b if op == '==' else a != b
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('arith on opaque %r %s %r at %s' % (a, op, b, where(n)))
        x, y = self.as_int(a), self.as_int(b)
        if op == '+':
            return z3.simplify(x + y)
        if op == '-':
            return z3.simplify(x - y)
        if op == '*':
            return z3.simplify(x * y)
        if op in ('/', '%'):
            self.oblige(st, y != 0, 'division-by-zero', n)
            xs, ys = z3.simplify(x), z3.simplify(y)
            if z3.is_int_value(xs) and z3.is_int_value(ys):
                p, q = xs.as_long(), ys.as_long()
                d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
                return z3.IntVal(d if op == '/' else p - d * q)
            if self.prove(st, z3.And(x >= 0, y > 0), timeout=1500).ok:
                if not z3.is_int_value(ys):
                    key = (xs.get_id(), ys.get_id())
                    if key not in self.divs:
                        self.divs[key] = (xs, ys, fresh('quot'))
                    q = self.divs[key][2]
                    st.assume(z3.And(q >= 0, ys * q <= xs, xs < ys * q + ys))
                    return q if op == '/' else z3.simplify(xs - ys * q)
                return x / y if op == '/' else x % y
            d = z3.If(x >= 0, x / y, -((-x) / y))
            return d if op == '/' else x - d * y
        if op == '<':
            return x < y
        if op == '>':
            return x > y
        if op == '<=':
            return x <= y
        if op == '>=':
            return x >= y
        if op == '==':
            return x == y
        if op == '!=':
            return x != y
        if op in ('<<', '>>'):
            ys = z3.simplify(y)
            xs = z3.simplify(x)
            if z3.is_int_value(ys):
                k = 2 ** ys.as_long()
                return z3.simplify(x * k) if op == '<<' else x / k
            if z3.is_int_value(xs) and op == '<<':
                f = z3.Function('pow2', I, I)
                return z3.simplify(xs * f(y))
        raise Unsupported('operator %s at %s' % (op, where(n)))

    def e_BinaryOperator(self, st, n):
        op = n['opcode']
        a, b = inner(n)
        if op == '=':
            v = self.rv(st, b)
            lv = self.ev(st, a)
            return self.assign(st, lv, v, n)
        if op in ('&&', '||'):
            x = self.as_bool(self.rv(st, a))
            s = z3.simplify(x)
            if op == '&&' and z3.is_false(s):
                return z3.BoolVal(False)
            if op == '||' and z3.is_true(s):
                return z3.BoolVal(True)
            n0 = len(st.pc)
            st.assume(x if op == '&&' else z3.Not(x))
            y = self.as_bool(self.rv(st, b))
            g = st.pc[n0]
            extra = st.pc[n0 + 1:]
            del st.pc[n0:]
            for f in extra:
                st.assume(z3.Implies(g, f))
            return z3.And(x, y) if op == '&&' else z3.Or(x, y)
        if op == ',':
            self.ev(st, a)
            return self.ev(st, b)
        x = self.rv(st, a)
        y = self.rv(st, b)
        return self.arith(st, op, x, y, n)

    def assign(self, st, lv, v, n):
        if isinstance(lv, ObjRef):
            self.copy_into(st, lv, v)
            return lv
        if isinstance(v, LElem):
            # struct element copy
            if isinstance(lv, LElem) and st.regs[lv.reg].fields:
                for f in st.regs[lv.reg].fields:
                    self.write(st, LElem(lv.reg + '.' + f, lv.idx, None, ''), self.read(st, LElem(v.reg + '.' + f, v.idx, None, ''), n), n)
                return lv
        if isinstance(lv, LElem) and st.regs[lv.reg].fields and isinstance(v, ObjRef):
            for f in st.regs[lv.reg].fields:
                self.write(st, LElem(lv.reg + '.' + f, lv.idx, None, ''), st.objs[v.id][f], n)
            return lv
        if isinstance(lv, LElem):
            r = st.regs[lv.reg]
            if r.sort == R and not isinstance(v, Num):
                v = self.as_num(v)
            elif r.sort == I and z3.is_expr(v) and v.sort() == z3.BoolSort():
                v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
        elif is_float(self.lvtype(st, lv, n)) and not isinstance(v, Num):
            v = self.as_num(v)
        elif self.lvtype(st, lv, n) == 'bool' and not isinstance(v, (Ptr, Opaque)):
            v = self.as_bool(v)
        self.write(st, lv, v, n)
        return lv

    def lvtype(self, st, lv, n):
        return norm_ty(ty(n))

    def copy_into(self, st, dst, src):
        if isinstance(src, LElem):
            for f in st.regs[src.reg].fields:
                st.objs[dst.id][f] = self.load(st, LElem(src.reg + '.' + f, src.idx, None, ''))
                self.note_mod(('f', dst.id, f))
            return
        if not isinstance(src, ObjRef):
            raise Unsupported('struct assign from %r' % (src,))
        for f, v in list(st.objs[src.id].items()):
            if f == '__cls':
                continue
            if isinstance(v, ObjRef):
                v2 = st.objs[dst.id].get(f)
                if isinstance(v2, ObjRef):
                    self.copy_into(st, v2, v)
                else:
                    st.objs[dst.id][f] = self.clone_obj(st, v)
            elif isinstance(v, Ptr) and v.reg in self.arrays:
                # std::array member: copied by value
                st.objs[dst.id][f] = self.clone_array(st, v)
            else:
                st.objs[dst.id][f] = v
            self.note_mod(('f', dst.id, f))

    def assign_members(self, st, dst, src):
        import builtins_cxx
        vs = [f for f, v in st.objs[src.id].items() if isinstance(v, ObjRef) and builtins_cxx.isvec(self, st, v) and isinstance(st.objs[dst.id].get(f), ObjRef)]
        for f in vs:
            builtins_cxx.vec_assign(self, st, st.objs[dst.id][f], st.objs[src.id][f])
        for f, v in list(st.objs[src.id].items()):
            if f == '__cls' or f in vs:
                continue
            if isinstance(v, ObjRef) and isinstance(st.objs[dst.id].get(f), ObjRef):
                self.assign_members(st, st.objs[dst.id][f], v)
            elif isinstance(v, ObjRef):
                st.objs[dst.id][f] = self.clone_obj(st, v)
            elif isinstance(v, Ptr) and v.reg in self.arrays:
                st.objs[dst.id][f] = self.clone_array(st, v)
            else:
                st.objs[dst.id][f] = v
            self.note_mod(('f', dst.id, f))

    def clone_array(self, st, v):
        r = st.regs[v.reg]
        rid = self.new_region(st, 'loc_arr', r.sort, r.unit, r.len, r.kind, stor=r.stor)
        st.heap[rid] = st.heap[v.reg]
        self.arrays.add(rid)
        return Ptr(rid, v.off, v.es, v.et)

    def clone_obj(self, st, src):
        cls = st.objs[src.id]['__cls']
        o = self.new_obj(st, cls)
        if cls.startswith('std::vector'):
            self.vec_copy(st, o, src)
        else:
            self.copy_into(st, o, src)
        return o

    def e_CompoundAssignOperator(self, st, n):
        op = n['opcode'][:-1]
        a, b = inner(n)
        v = self.rv(st, b)
        lv = self.ev(st, a)
        old = self.read(st, lv, n)
        if is_int(ty(a)) and isinstance(v, Num):
            raise Unsupported('int op= double')
        self.write(st, lv, self.arith(st, op, old, v, n), n)
        return lv

    def is_abort(self, n):
        n = strip(n)
        if n.get('kind') == 'CallExpr':
            f = strip(inner(n)[0])
            return (f.get('referencedDecl') or {}).get('name') in ('__assert_fail', 'abort', 'exit')
        return False

    def e_ConditionalOperator(self, st, n):
        c, a, b = inner(n)
        if self.is_abort(b):
            g = self.as_bool(self.rv(st, c))
            self.oblige(st, g, 'assert', n)
            return z3.IntVal(0)
        x = self.as_bool(self.rv(st, c))
        s = z3.simplify(x)
        if z3.is_true(s):
            return self.ev(st, a)
        if z3.is_false(s):
            return self.ev(st, b)
        # fork: the enclosing statement is re-executed for the other branch
        if self.choose(st, n, 2, [x, z3.Not(x)]) == 0:
            st.assume(x)
            return self.ev(st, a)
        st.assume(z3.Not(x))
        return self.ev(st, b)

    # ---- nondeterministic choice by re-execution of the enclosing statement
    def choose(self, st, n, k, conds=None):
        ch = self.choices
        if ch is None:
            raise Unsupported('choice outside statement at ' + where(n))
        i = ch['pos']
        ch['pos'] += 1
        if i < len(ch['pre']):
            return ch['pre'][i]
        opts = list(range(k))
        if conds is not None:
            opts = [j for j in opts if self.feasible(st, conds[j])]
            if not opts:
                raise PathEnd()
        for j in opts[1:]:
            ch['todo'].append(ch['pre'][:i] + [j])
        ch['pre'] = ch['pre'][:i] + [opts[0]]
        return opts[0]

    def enumerate_choices(self, st, fn):
        """run fn on copies of st once per choice sequence; returns list of (state, result)"""
        saved = self.choices
        todo, out = [[]], []
        cnt = 0
        try:
            while todo:
                pre = todo.pop()
                s = st.copy()
                self.choices = {'pre': pre, 'pos': 0, 'todo': todo, 'memo': None}
                cnt += 1
                if cnt > 400:
                    raise Unsupported('too many paths in one statement')
                try:
                    r = fn(s)
                    out.append((s, r))
                except PathEnd:
                    pass
        finally:
            self.choices = saved
        return out

    # ---- calls --------------------------------------------------------------------------------------------------
    def e_CallExpr(self, st, n):
        ch = inner(n)
        f = self.ev(st, ch[0])
        if isinstance(f, FnRef):
            return self.call(st, f, None, ch[1:], n)
        if isinstance(f, (LambdaVal,)):
            return self.call_lambda(st, f, ch[1:], n)
        raise Unsupported('call of %r at %s' % (f, where(n)))

    def e_CXXMemberCallExpr(self, st, n):
        ch = inner(n)
        b = self.ev(st, ch[0])
        if not isinstance(b, Bound):
            raise Unsupported('member call %r at %s' % (b, where(n)))
        return self.member_call(st, b, ch[1:], n)

    def member_call(self, st, b, args, n):
        import builtins_cxx
        r = builtins_cxx.method(self, st, b, args, n)
        if r is not builtins_cxx.NOPE:
            return r
        d = self.curtu().decl.get(b.did) or self.tu.decl.get(b.did)
        f = self.db.definition(self.curtu(), b.did) or self.db.definition(self.tu, b.did)
        if f is None or f.body is None:
            f2 = self.dispatch(st, b, f) if not b.qualified else None
            if f2 is not None:
                f = f2
        else:
            f2 = self.dispatch(st, b, f) if (f.node.get('virtual') and not b.qualified) else None
            if f2 is not None:
                f = f2
        if (f is None or f.body is None) and b.name == 'operator=' and isinstance(b.obj, ObjRef) and (f is None or f.node.get('isImplicit') or f.node.get('explicitlyDefaulted')):
            # implicitly defined assignment: member by member
            src = builtins_cxx.tobj(self, st, self.ev(st, args[0]), n)
            if isinstance(src, ObjRef):
                self.assign_members(st, b.obj, src)
                return b.obj
        if f is None:
            raise Unsupported('no definition for method %s at %s' % (b.name, where(n)))
        return self.invoke(st, f, b.obj, args, n)

    def dispatch(self, st, b, f):
        """dynamic dispatch on the concrete class of the receiver"""
        if not isinstance(b.obj, ObjRef):
            return None
        r = self.record(st.objs[b.obj.id].get('__cls'))
        seen = 0
        while r is not None and seen < 6:
            for m in r.methods:
                if m.name == b.name and (f is None or len(m.params) == len(f.params)):
                    d = self.db.definition(r.tu, m.node['id'])
                    if d is not None and d.body is not None:
                        return d
            nb = None
            for bb in r.bases:
                nb = self.record(bb) or nb
            r = nb
            seen += 1
        return None

    def e_CXXOperatorCallExpr(self, st, n):
        import builtins_cxx
        ch = inner(n)
        f = self.ev(st, ch[0])
        r = builtins_cxx.operator(self, st, f, ch[1:], n)
        if r is not builtins_cxx.NOPE:
            return r
        d = f.node
        if d['kind'] == 'CXXMethodDecl':
            o = self.ev(st, ch[1])
            if isinstance(o, LV):
                o = self.read(st, o, n)
            if isinstance(o, LambdaVal):
                return self.call_lambda(st, o, ch[2:], n)
            b = Bound(o, f.name, f.fid, ch[1])
            fn = self.db.definition(self.curtu(), f.fid) or self.db.definition(self.tu, f.fid)
            if fn is None:
                raise Unsupported('operator %s at %s' % (f.name, where(n)))
            return self.invoke(st, fn, o, ch[2:], n)
        return self.call(st, f, None, ch[1:], n)

    def call(self, st, f, this, args, n):
        import builtins_cxx
        r = builtins_cxx.function(self, st, f, args, n)
        if r is not builtins_cxx.NOPE:
            return r
        fn = self.db.definition(self.curtu(), f.fid) or self.db.definition(self.tu, f.fid)
        if fn is None:
            raise Unsupported('no definition for function %s at %s' % (f.name, where(n)))
        return self.invoke(st, fn, this, args, n)

    def bind_args(self, st, fn, args, n):
        vals = []
        params = fn.params
        for i, p in enumerate(params):
            t = p.get('type', {}).get('desugaredQualType') or p.get('type', {}).get('qualType', '')
            tq = p.get('type', {}).get('qualType', '')
            if i < len(args):
                a = args[i]
                v = self.ev(st, a) if not isinstance(a, PreVal) else a.v
            else:
                raise Unsupported('missing argument')
            byref = t.rstrip().endswith('&') or tq.rstrip().endswith('&')
            if byref:
                if isinstance(v, ObjRef):
                    vals.append(v)
                elif isinstance(v, LV) or hasattr(v, 'vread'):
                    vals.append(RefBox(v))
                else:
                    vals.append(RefBox(LTemp(v)) if not isinstance(v, Opaque) else v)
            else:
                if isinstance(v, LV) or hasattr(v, 'vread'):
                    v = self.read(st, v, n)
                if isinstance(v, Ptr) and v.null and pointee(t):
                    v = self.nullptr(t)
                if isinstance(v, ObjRef) and not self.is_prvalue_ctor(args[i]):
                    v = self.clone_obj(st, v)
                if is_float(t) and not isinstance(v, Num):
                    v = self.as_num(v)
                vals.append(v)
        return vals

    def is_prvalue_ctor(self, a):
        return isinstance(a, PreVal) or a.get('valueCategory') == 'prvalue'

    def invoke(self, st, fn, this, args, n):
        """call of a function with AST definition: contract or body"""
        vals = self.bind_args(st, fn, args, n)
        c = self.contract_for(fn)
        if c is not None:
            r = c.apply(self, st, fn, this, vals, n)
            if r is not NotImplemented:
                self.stats['contracts'].add(c.name)
                return r
        if fn.body is None:
            raise Unsupported('no body for %s at %s' % (fn.qual, where(n)))
        if len(self.callstack) > 25:
            raise Unsupported('recursion ' + fn.qual)
        self.stats['inlined'].add(fn.qual)
        outs = self.memo_call(st, fn, this, vals, n)
        if not outs:
            raise PathEnd()
        if len(outs) == 1:
            i = 0
        else:
            i = self.choose(st, n, len(outs))
        s2, fl, val = outs[i]
        s3 = s2.copy()
        st.become(s3)
        if fl == Flow.THROW:
            raise Thrown(val)
        return val

    def memo_call(self, st, fn, this, vals, n):
        # the outcomes of a call inside a re-executed statement prefix are deterministic: cache by position
        ch = self.choices
        key = None
        if ch is not None:
            memo = ch.setdefault('memo_store', {})
        outs = self.run_body(st.copy(), fn, this, vals)
        return outs

    def contract_for(self, fn):
        for c in self.contracts.values():
            if c.matches(fn):
                return c
        return None

    def run_body(self, st, fn, this, vals):
        """returns list of (state, flow, value) with the caller's frame restored"""
        d0 = st.depth
        st.depth += 1
        st.this.append(this)
        for p, v in zip(fn.params, vals):
            st.env[(st.depth, p['id'])] = v
            self.localtypes[(st.depth, p['id'])] = ty(p)
        self.callstack.append(fn)
        saved_loops = self.loopstack
        try:
            states = [st]
            if fn.kind == 'CXXConstructorDecl':
                if self.choices is None:
                    states = [s1 for s1, _ in self.enumerate_choices(st, lambda s0: self.ctor_inits(s0, fn, this))]
                else:
                    states = self.ctor_inits(st, fn, this)
            res = []
            for s in states:
                for s2, fl, v in self.stmt(s, fn.body):
                    if fl in (Flow.BREAK, Flow.CONT):
                        raise Unsupported('stray break')
                    res.append((s2, fl, v))
        finally:
            self.callstack.pop()
        out = []
        for s2, fl, v in res:
            if fl == Flow.NORMAL:
                v = None
            if fl == Flow.RET:
                fl = Flow.NORMAL
            for k in [k for k in s2.env if k[0] > d0]:
                del s2.env[k]
            s2.depth = d0
            s2.this = s2.this[:len(st.this) - 1] if len(s2.this) >= len(st.this) else s2.this
            out.append((s2, fl, v))
        return out

    def ctor_inits(self, st, fn, this):
        rec = fn.cls
        for it in fn.inits:
            tgt = it.get('anyInit') or {}
            c = inner(it)
            if tgt.get('kind') == 'FieldDecl':
                nm = tgt['name']
                self.init_field(st, this, nm, tgt, c[0] if c else None)
            elif 'baseInit' in it:
                if c:
                    self.init_base(st, this, c[0])
            elif c:
                raise Unsupported('ctor initialiser')
        return [st]

    def init_base(self, st, this, e):
        e = strip(e)
        if e.get('kind') == 'CXXConstructExpr':
            self.construct(st, e, this)
            return
        raise Unsupported('base init ' + e.get('kind'))

    def init_field(self, st, this, nm, fld, e):
        t = ty(fld)
        if e is None:
            return
        e0 = strip(e, casts=False)
        if norm_ty(t).startswith('std::array<'):
            import builtins_cxx
            if e0.get('kind') == 'CXXConstructExpr' and not inner(e0):
                st.objs[this.id][nm] = builtins_cxx.default_value(self, st, norm_ty(t))
                return
            v = self.rv(st, inner(e0)[0] if e0.get('kind') == 'CXXConstructExpr' else e0)
            if not isinstance(v, Ptr):
                raise Unsupported('std::array member initialiser at %s' % where(e0))
            st.objs[this.id][nm] = self.clone_array(st, v)
            return
        if e0.get('kind') == 'CXXConstructExpr' and not eig(t) :
            sub = st.objs[this.id].get(nm)
            if not isinstance(sub, ObjRef):
                sub = self.new_obj(st, norm_ty(t))
                st.objs[this.id][nm] = sub
            self.construct(st, e0, sub)
            return
        if e0.get('kind') == 'CXXDefaultInitExpr':
            return
        if t.rstrip().endswith('&'):
            v = self.ev(st, e)
            st.objs[this.id][nm] = v if isinstance(v, ObjRef) else RefBox(v)
            return
        v = self.rv(st, e)
        if isinstance(v, Ptr) and v.null:
            v = self.nullptr(t)
        st.objs[this.id][nm] = v

    def e_InitListExpr(self, st, n):
        c = inner(n)
        t = norm_ty(ty(n))
        if len(c) == 1 and (is_int(t) or is_float(t) or t == 'bool' or pointee(t) or self.is_enum(t)):
            return self.ev(st, c[0])
        if len(c) == 0:
            try:
                return self.zero_value(st, t)
            except Unsupported:
                pass
        rec = self.record(t)
        if rec is not None:
            o = self.new_obj(st, t)
            for f, e in zip(rec.fields, c):
                st.objs[o.id][f['name']] = self.rv(st, e)
            return o
        import builtins_cxx
        r = builtins_cxx.initlist(self, st, t, c, n)
        if r is not builtins_cxx.NOPE:
            return r
        raise Unsupported('init list of %s' % t)

    def e_CXXConstructExpr(self, st, n):
        t = norm_ty(ty(n))
        c = inner(n)
        import builtins_cxx
        r = builtins_cxx.construct(self, st, t, c, n)
        if r is not builtins_cxx.NOPE:
            return r
        rec = self.record(t)
        if rec is None and 'allocator<' in t and not c:
            return Opaque('allocator')
        if rec is None:
            raise Unsupported('construct %s at %s' % (t, where(n)))
        o = self.new_obj(st, t)
        self.construct(st, n, o)
        return o

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, st, n, obj):
        """run the constructor chosen by overload resolution on obj"""
        t = norm_ty(ty(n))
        import builtins_cxx
        c = inner(n)
        if builtins_cxx.construct_into(self, st, t, c, n, obj):
            return
        rec = self.record(t)
        if rec is None:
            raise Unsupported('construct %s at %s' % (t, where(n)))
        ctort = (n.get('ctorType') or {}).get('qualType', '')
        self.default_fields(st, rec, obj)
        cands = [m for m in rec.methods if m.kind == 'CXXConstructorDecl']
        pick = None
        for m in cands:
            q = m.node.get('type', {}).get('qualType', '')
            if q == ctort or q.replace(' noexcept', '') == ctort.replace(' noexcept', ''):
                pick = m
        if pick is None and not c and not [m for m in cands if not m.node.get('isImplicit')]:
            return      # implicitly defined default constructor: the members are default-initialised above
        if pick is None:
            raise Unsupported('constructor %s of %s' % (ctort, t))
        d = self.db.definition(rec.tu, pick.node['id'])
        if d is None or d.body is None:
            if pick.node.get('explicitlyDefaulted') or pick.node.get('isImplicit'):
                if not c:
                    for f in rec.fields:
                        self.default_member(st, f, obj)
                    return
                src = self.ev(st, c[0])
                if isinstance(src, LV):
                    src = self.read(st, src, n)
                self.copy_into(st, obj, src)
                return
            raise Unsupported('no body for constructor %s' % pick.qual)
        if (pick.node.get('isImplicit') or pick.node.get('explicitlyDefaulted')) and c and not d.inits:
            src = self.ev(st, c[0])
            self.copy_into(st, obj, src)
            return
        vals = self.bind_args(st, d, c, n)
        cc = self.contract_for(d)
        if cc is not None:
            r = cc.apply(self, st, d, obj, vals, n)
            if r is not NotImplemented:
                return
        outs = self.run_body(st.copy(), d, obj, vals)
        if not outs:
            raise PathEnd()
        i = self.choose(st, n, len(outs)) if len(outs) > 1 else 0
        s2, fl, _ = outs[i]
        st.become(s2.copy())
        if fl == Flow.THROW:
            raise Thrown(None)

    def default_fields(self, st, rec, obj):
        for f in rec.fields:
            self.default_member(st, f, obj)
        for b in rec.bases:
            r = self.record(b)
            if r is not None:
                self.default_fields(st, r, obj)

    def default_member(self, st, f, obj):
        t = norm_ty(ty(f))
        nm = f.get('name')
        if nm is None or nm in st.objs[obj.id]:
            return
        ini = [x for x in inner(f) if x.get('kind', '').endswith('Expr') or x.get('kind', '').endswith('Literal')]
        if f.get('hasInClassInitializer') and ini:
            st.objs[obj.id][nm] = self.rv(st, ini[-1])
            return
        import builtins_cxx
        v = builtins_cxx.default_value(self, st, t)
        if v is not None:
            st.objs[obj.id][nm] = v
            return
        rec = self.record(t)
        if rec is not None and not pointee(t):
            o = self.new_obj(st, t)
            st.objs[obj.id][nm] = o
            self.default_fields(st, rec, o)
            # run its default constructor
            for m in rec.methods:
                if m.kind == 'CXXConstructorDecl' and not m.params:
                    d = self.db.definition(rec.tu, m.node['id'])
                    if d is not None and d.body is not None:
                        outs = self.run_body(st.copy(), d, o, [])
                        if outs:
                            st.become(outs[0][0].copy())

    def e_CXXNewExpr(self, st, n):
        import builtins_cxx
        return builtins_cxx.new_expr(self, st, n)

    def e_CXXDeleteExpr(self, st, n):
        import builtins_cxx
        return builtins_cxx.delete_expr(self, st, n)

    def e_CXXThrowExpr(self, st, n):
        raise Thrown(None)

    def e_LambdaExpr(self, st, n):
        return LambdaVal(n, st.depth)

    def call_lambda(self, st, lam, args, n):
        body = None
        params = None
        for c in inner(lam.node):
            if c.get('kind') == 'CompoundStmt':
                body = c
            if c.get('kind') == 'CXXRecordDecl':
                for m in inner(c):
                    if m.get('name') == 'operator()':
                        params = [p for p in inner(m) if p.get('kind') == 'ParmVarDecl']
                        for x in inner(m):
                            if x.get('kind') == 'CompoundStmt':
                                body2 = x
                                body = body or body2
        if body is None or params is None:
            raise Unsupported('lambda')
        class F:
            pass
        f = F()
        f.params, f.body, f.kind, f.tu, f.qual, f.inits = params, body, 'FunctionDecl', self.curtu(), 'lambda', []
        vals = self.bind_args(st, f, args, n)
        outs = self.run_body(st.copy(), f, st.this[-1], vals)
        if not outs:
            raise PathEnd()
        i = self.choose(st, n, len(outs)) if len(outs) > 1 else 0
        s2, fl, v = outs[i]
        st.become(s2.copy())
        if fl == Flow.THROW:
            raise Thrown(None)
        return v

    # ---- statements ---------------------------------------------------------------------------------------------
    def stmt(self, st, n):
        """list of (state, flow, value)"""
        k = n.get('kind')
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(st, n)
        if k.startswith('OMP'):
            import omp
            return omp.directive(self, st, n)

        def run(s):
            try:
                self.ev(s, n)
                return (Flow.NORMAL, None)
            except Thrown as t:
                return (Flow.THROW, None)
        return [(s, r[0], r[1]) for s, r in self.enumerate_choices(st, run)]

    def s_SPMDBody(self, st, n):
        import omp
        return omp.spmd_body(self, st, n)

    def s_NullStmt(self, st, n):
        return [(st, Flow.NORMAL, None)]

    def s_CompoundStmt(self, st, n):
        return self.seq(st, inner(n))

    def seq(self, st, stmts):
        cur, out = [st], []
        for x in stmts:
            nxt = []
            for s in cur:
                for s2, fl, v in self.stmt(s, x):
                    if fl == Flow.NORMAL:
                        nxt.append(s2)
                    else:
                        out.append((s2, fl, v))
            cur = nxt
            if len(cur) + len(out) > 300:
                raise Unsupported('too many paths')
            if not cur:
                break
        return out + [(s, Flow.NORMAL, None) for s in cur]

    def s_DeclStmt(self, st, n):
        def run(s):
            try:
                for d in inner(n):
                    self.decl(s, d)
                return (Flow.NORMAL, None)
            except Thrown:
                return (Flow.THROW, None)
        return [(s, r[0], r[1]) for s, r in self.enumerate_choices(st, run)]

    def decl(self, st, d):
        if d.get('kind') != 'VarDecl':
            return
        key = (st.depth, d['id'])
        tq = d.get('type', {}).get('qualType', '')
        t = ty(d)
        self.localtypes[key] = t
        init = [c for c in inner(d) if not c.get('kind', '').endswith('Attr') and not c.get('kind', '').endswith('Decl')
                and not c.get('kind', '').endswith('Comment') and not c.get('kind', '').endswith('Type')]
        isref = t.rstrip().endswith('&') or tq.rstrip().endswith('&')
        if isref:
            v = self.ev(st, init[-1])
            st.env[key] = v if isinstance(v, ObjRef) else RefBox(v if (isinstance(v, LV) or hasattr(v, 'vread')) else LTemp(v))
            return
        if not init:
            import builtins_cxx
            nt = norm_ty(t)
            v = builtins_cxx.default_value(self, st, nt)
            if v is None and (not pointee(nt) or nt.endswith(']')):
                m = re.match(r'(.*)\[(\d+)\]$', nt)
                if m:
                    v = self.local_array(st, m.group(1), int(m.group(2)), None)
                else:
                    rec = self.record(nt)
                    if rec is not None:
                        v = self.new_obj(st, nt)
                        self.default_fields(st, rec, v)
            st.env[key] = v
            return
        e = init[-1]
        m = re.match(r'(.*)\[(\d+)\]$', norm_ty(t))
        if m:
            vals = [self.rv(st, x) for x in inner(e)] if e.get('kind') == 'InitListExpr' else None
            st.env[key] = self.local_array(st, m.group(1), int(m.group(2)), vals)
            return
        v = self.ev(st, e)
        if isinstance(v, LV) or hasattr(v, 'vread'):
            v = self.read(st, v, e)
        if isinstance(v, Ptr) and v.null and pointee(norm_ty(t)):
            v = self.nullptr(norm_ty(t))
        if isinstance(v, LElem):
            o = self.new_obj(st, norm_ty(t))
            self.copy_into(st, o, v)
            v = o
        if is_float(t) and not isinstance(v, Num):
            v = self.as_num(v)
        if norm_ty(t) == 'bool':
            v = self.as_bool(v)
        if is_int(t) and z3.is_expr(v) and z3.is_bool(v):
            v = self.as_int(v)
        st.env[key] = v

    def local_array(self, st, et, n, vals):
        et = norm_ty(et)
        sort = R if is_float(et) or eig(et) else I
        u = self.esize(et)
        rid = self.new_region(st, 'loc_arr', sort, u, z3.IntVal(n), 'm' if eig(et) else 's')
        if vals is not None:
            a = st.heap[rid]
            for i in range(n):
                if i < len(vals):
                    v = vals[i]
                else:
                    v = Num.zero('s') if sort == R else z3.IntVal(0)
                if sort == R:
                    v = self.as_num(v).z()
                a = z3.Store(a, i, v)
            st.heap[rid] = a
        return Ptr(rid, z3.IntVal(0), u, et)

    def s_ReturnStmt(self, st, n):
        c = inner(n)

        def run(s):
            try:
                if not c:
                    return (Flow.RET, None)
                v = self.ev(s, c[0])
                fn = self.callstack[-1] if self.callstack else None
                rt = ''
                if fn is not None and getattr(fn, 'node', None):
                    rt = fn.node.get('type', {}).get('qualType', '').split('(')[0].strip()
                if not rt.endswith('&'):
                    if isinstance(v, LV) or hasattr(v, 'vread'):
                        v = self.read(s, v, n)
                return (Flow.RET, v)
            except Thrown:
                return (Flow.THROW, None)
        return [(s, r[0], r[1]) for s, r in self.enumerate_choices(st, run)]

    def s_BreakStmt(self, st, n):
        return [(st, Flow.BREAK, None)]

    def s_ContinueStmt(self, st, n):
        return [(st, Flow.CONT, None)]

    def s_IfStmt(self, st, n):
        c = inner(n)
        i = 0
        pre = []
        if n.get('hasInit'):
            pre = self.stmt(st, c[0])
            i = 1
        if n.get('hasVar'):
            raise Unsupported('if with variable')
        cond, then = c[i], c[i + 1]
        els = c[i + 2] if n.get('hasElse') else None
        states = [st] if not n.get('hasInit') else [s for s, f, v in pre]
        out = []
        for s0 in states:
            for s, b in self.enumerate_choices(s0, lambda s: self.try_bool(s, cond)):
                if b is None:
                    out.append((s, Flow.THROW, None))
                    continue
                o1, o2 = [], []
                if self.feasible(s, b):
                    s1 = s.copy()
                    s1.assume(b)
                    s1.trace += ((n['id'], 1),)
                    o1 = self.stmt(s1, then)
                nb = z3.Not(b)
                if self.feasible(s, nb):
                    s1 = s.copy()
                    s1.assume(nb)
                    s1.trace += ((n['id'], 0),)
                    o2 = self.stmt(s1, els) if els is not None else [(s1, Flow.NORMAL, None)]
                if self.opts.get('merge') and len(o1) == 1 and len(o2) == 1 and o1[0][1] == o2[0][1] == Flow.NORMAL:
                    sm = self.merge(s, b, o1[0][0], o2[0][0], n)
                    if sm is not None:
                        out.append((sm, Flow.NORMAL, None))
                        continue
                out += o1 + o2
        return out

    def merge(self, s, b, s1, s2, n):
        """one state after a two-way branch that only assigns scalars; None if the branches differ in more than that"""
        if s1.objs != s2.objs or s1.alive != s2.alive or s1.ghost != s2.ghost or s1.regs != s2.regs or set(s1.heap) != set(s2.heap):
            return None
        m = s1.copy()
        for k in set(s1.env) | set(s2.env):
            x, y = s1.env.get(k), s2.env.get(k)
            if x is y:
                continue
            if k not in s.env:
                m.env.pop(k, None)        # local to a branch
            elif isinstance(x, Num) and isinstance(y, Num) and x.k == y.k:
                if not x.z().eq(y.z()):
                    m.env[k] = num(z3.If(b, x.z(), y.z()), x.k)
            elif z3.is_expr(x) and z3.is_expr(y) and x.sort() == y.sort():
                if not x.eq(y):
                    m.env[k] = z3.If(b, x, y)
            else:
                return None
        for k in s1.heap:
            x, y = s1.heap[k], s2.heap[k]
            if not x.eq(y):
                m.heap[k] = z3.If(b, x, y)
        k0 = len(s.pc)
        m.pc = list(s.pc) + [z3.Implies(b, f) for f in s1.pc[k0 + 1:]] + [z3.Implies(z3.Not(b), f) for f in s2.pc[k0 + 1:]]
        m.trace = s.trace + ((n['id'], 2),)
        return m

    def try_bool(self, s, cond):
        try:
            return self.as_bool(self.rv(s, cond))
        except Thrown:
            return None

    def s_SwitchStmt(self, st, n):
        c = inner(n)
        cond, body = c[0], c[-1]
        items = []     # flattened [(labels, stmt)]

        def flat(x, labels):
            if x.get('kind') == 'CaseStmt':
                cc = inner(x)
                flat(cc[-1], labels + [cc[0]])
            elif x.get('kind') == 'DefaultStmt':
                flat(inner(x)[-1], labels + ['default'])
            else:
                items.append((labels, x))
        for x in inner(body):
            flat(x, [])
        out = []
        for s, v in self.enumerate_choices(st, lambda s: self.rv(s, cond)):
            v = self.as_int(v)
            labs = []
            for pos, (ls, _) in enumerate(items):
                for l in ls:
                    labs.append((pos, l))
            conds, dflt = [], None
            for pos, l in labs:
                if l == 'default':
                    dflt = pos
                else:
                    conds.append((pos, v == self.as_int(self.rv(s, l))))
            none = z3.And([z3.Not(cc) for _, cc in conds]) if conds else z3.BoolVal(True)
            conds.append((dflt, none))
            for pos, cc in conds:
                if not self.feasible(s, cc):
                    continue
                s1 = s.copy()
                s1.assume(cc)
                if pos is None:
                    out.append((s1, Flow.NORMAL, None))
                    continue
                for s2, fl, val in self.seq(s1, [x for _, x in items[pos:]]):
                    out.append((s2, Flow.NORMAL if fl == Flow.BREAK else fl, val))
        return out

    def s_CXXTryStmt(self, st, n):
        raise Unsupported('try block')

    def s_ForStmt(self, st, n):
        c = n.get('inner', [])
        init, cond, inc, body = c[0], c[2], c[3], c[4]
        states = [(st, Flow.NORMAL, None)]
        if init and init.get('kind'):
            states = self.stmt(st, init)
        out = []
        for s, fl, v in states:
            if fl != Flow.NORMAL:
                out.append((s, fl, v))
                continue
            out += self.loop(s, cond if cond and cond.get('kind') else None, inc if inc and inc.get('kind') else None, body, n)
        return out

    def s_WhileStmt(self, st, n):
        c = inner(n)
        return self.loop(st, c[0], None, c[-1], n)

    def s_DoStmt(self, st, n):
        c = inner(n)
        out = []
        for s, fl, v in self.stmt(st, c[0]):
            if fl in (Flow.NORMAL, Flow.CONT):
                out += self.loop(s, c[1], None, c[0], n)
            elif fl == Flow.BREAK:
                out.append((s, Flow.NORMAL, None))
            else:
                out.append((s, fl, v))
        return out

    def s_CXXForRangeStmt(self, st, n):
        import builtins_cxx
        return builtins_cxx.range_for(self, st, n)

    # ---- loops --------------------------------------------------------------------------------------------------
    def iteration(self, st, cond, inc, body):
        """one execution of the loop test, body and increment.
        returns (exits, nexts, others): states leaving by the test, states at the next test, other flows"""
        exits, nexts, others = [], [], []
        cs = self.enumerate_choices(st, lambda s: self.try_bool(s, cond)) if cond is not None else [(st, z3.BoolVal(True))]
        for s, b in cs:
            if b is None:
                others.append((s, Flow.THROW, None))
                continue
            nb = z3.Not(b)
            if not z3.is_true(z3.simplify(b)):
                s1 = s.copy()
                s1.assume(nb)
                exits.append(s1)
            if not self.feasible(s, b):
                continue
            s.assume(b)
            for s2, fl, v in self.stmt(s, body):
                if fl in (Flow.NORMAL, Flow.CONT):
                    if inc is not None:
                        for s3, fl3, v3 in self.stmt(s2, inc):
                            (nexts if fl3 == Flow.NORMAL else others).append(s3 if fl3 == Flow.NORMAL else (s3, fl3, v3))
                    else:
                        nexts.append(s2)
                elif fl == Flow.BREAK:
                    others.append((s2, Flow.BREAK, None))
                else:
                    others.append((s2, fl, v))
        return exits, nexts, others

    def loop(self, st, cond, inc, body, node, par=None):
        # 1. concrete unrolling
        un = self.try_unroll(st, cond, inc, body)
        if un is not None:
            return un
        self.stats['loops'] += (self.mode == 'final')
        # 2. modified set by abstract execution
        mods = self.modified(st, cond, inc, body)
        ctx = LoopCtx(self, st, cond, inc, body, node, mods)
        cands = self.candidates(ctx)
        kept = self.houdini(st, ctx, cands, cond, inc, body)
        if self.mode == 'final':
            self.stats['invs'] += len(kept)
            self.inv_report.setdefault(where(node), []).extend(nm for nm, _ in kept)
        # 3. final pass
        head = self.head(st, ctx, kept)
        self.loopstack.append(ctx)
        try:
            if par is not None:
                par(self, head, ctx)
            exits, nexts, others = self.iteration(head.copy(), cond, inc, body)
        finally:
            self.loopstack.pop()
        out = []
        for s in exits:
            ex = self.exit_lemmas(s, ctx)
            out.append((s, Flow.NORMAL, None))
        for s, fl, v in others:
            if fl == Flow.BREAK:
                out.append((s, Flow.NORMAL, None))
            else:
                out.append((s, fl, v))
        return out

    def exit_lemmas(self, s, ctx):
        if self.exit_hook and self.mode != 'dry':
            for goal, fact in self.exit_hook(ctx, s):
                if self.prove(s, goal).ok:
                    s.assume(fact)

    def try_unroll(self, st, cond, inc, body):
        limit = self.opts.get('unroll', 80)
        if 'unroll' in self.opts and cond is not None and self.mode != 'dry':
            # trial run first, so that an abandoned unrolling leaves no trace
            saved, probe = self.mode, st.copy()
            self.mode, probe.log = 'dry', None
            try:
                if self._try_unroll(probe, cond, inc, body, limit) is None:
                    return None
            finally:
                self.mode = saved
        n0 = len(self.obls)
        r = self._try_unroll(st.copy(), cond, inc, body, limit)
        if r is None:
            del self.obls[n0:]
        return r

    def _try_unroll(self, st, cond, inc, body, limit):
        s = st.copy()
        if cond is None:
            return None
        try:
            cs = self.enumerate_choices(s, lambda x: self.as_bool(self.rv(x, cond)))
        except Thrown:
            return None
        if len(cs) != 1:
            return None
        b = z3.simplify(cs[0][1])
        if not (z3.is_true(b) or z3.is_false(b)):
            return None
        out = []
        cur = [st]
        for it in range(limit):
            nxt = []
            for s in cur:
                ex, nx, oth = self.iteration(s, cond, inc, body)
                # every test must be concrete
                for e in ex:
                    last = z3.simplify(e.pc[-1])
                    if not z3.is_true(last):
                        return None
                    out.append((e, Flow.NORMAL, None))
                nxt += nx
                for s2, fl, v in oth:
                    out.append((s2, Flow.NORMAL if fl == Flow.BREAK else fl, v))
            cur = nxt
            if not cur:
                return out
        return None

    def modified(self, st, cond, inc, body):
        mods = {}
        saved = self.mode
        self.mode = 'dry'
        try:
            for _ in range(6):
                new = {}
                s = st.copy()
                self.havoc(s, mods)
                if self.modstack is None:
                    self.modstack = []
                self.modstack.append(new)
                try:
                    self.iteration(s, cond, inc, body)
                finally:
                    self.modstack.pop()
                live = {k: v for k, v in new.items() if self.exists_at(st, k)}
                if set(live) <= set(mods):
                    for k, v in live.items():
                        mods[k] = v
                    break
                for k, v in live.items():
                    mods.setdefault(k, [])
                    mods[k] = v
        finally:
            self.mode = saved
        return mods

    def exists_at(self, st, k):
        if k[0] == 'l':
            return k[1] in st.env
        if k[0] == 'f':
            return k[1] in st.objs
        if k[0] == 'h':
            return k[1] in st.heap
        return False

    def havoc(self, s, mods):
        for k in mods:
            if k[0] == 'l':
                v = s.env[k[1]]
                s.env[k[1]] = self.havoc_like(s, v, self.localtypes.get(k[1], ''), 'v')
            elif k[0] == 'f':
                v = s.objs[k[1]].get(k[2])
                s.objs[k[1]][k[2]] = self.havoc_like(s, v, self.fieldtype(s.objs[k[1]].get('__cls'), k[2]), k[2])
            elif k[0] == 'h':
                a = s.heap[k[1]]
                s.heap[k[1]] = fresh(k[1].split('!')[0], a.sort())

    def havoc_like(self, s, v, t, name):
        if z3.is_expr(v):
            return fresh(name, v.sort())
        if isinstance(v, Num):
            return Num.atom(fresh(name, R), v.k)
        if isinstance(v, Ptr):
            if v.null:
                raise Unsupported('loop modifies a null pointer')
            return Ptr(v.reg, fresh('off', I), v.es, v.et)
        if hasattr(v, 'at_pos'):
            return v.at_pos(fresh(name))
        if v is None:
            return self.havoc_value(t, name)
        if isinstance(v, Opaque):
            return v
        if isinstance(v, (RefBox, ObjRef, Str)):
            return v
        raise Unsupported('loop modifies %r' % (v,))

    def head(self, st, ctx, kept):
        h = st.copy()
        self.havoc(h, ctx.mods)
        for nm, f in kept:
            h.assume(f(h))
        if self.inst_hook:
            for f in self.inst_hook(ctx, h):
                h.assume(f)
        return h

    def candidates(self, ctx):
        out = list(self.generic_candidates(ctx))
        if self.cand_hook:
            out += list(self.cand_hook(ctx))
        return out

    def generic_candidates(self, ctx):
        """frame and range templates"""
        out = []
        e = ctx.entry
        iv = ctx.iv
        if iv is not None:
            i0 = ctx.iv0
            if ctx.ivstep is not None and ctx.ivstep > 0:
                out.append(('range-lo', lambda s: ctx.ivval(s) >= i0))
                for bi, b in enumerate(ctx.bounds):
                    out.append(('range-hi%d' % bi, lambda s, b=b: z3.Or(ctx.ivval(s) <= b, ctx.ivval(s) == i0)))
            elif ctx.ivstep is not None:
                out.append(('range-hi', lambda s: ctx.ivval(s) <= i0))
                for bi, b in enumerate(ctx.bounds):
                    out.append(('range-lo%d' % bi, lambda s, b=b: z3.Or(ctx.ivval(s) >= b - 1, ctx.ivval(s) == i0)))
        if self.rangeonly or not self.opts.get('frames', True):
            return out
        # frames: elements never written stay as they were at loop entry
        k = z3.Int('k!frm')
        for key, idxs in ctx.mods.items():
            if key[0] != 'h':
                continue
            rid = key[1]
            e0 = e.heap[rid]
            inv = ctx.invariant_indices(idxs)
            if inv is not None and inv:
                def f1(s, rid=rid, e0=e0, inv=inv):
                    return qall([k], z3.Implies(z3.And([k != x for x in inv]),
                                                     z3.Select(s.heap[rid], k) == z3.Select(e0, k)),
                                     patterns=[z3.Select(s.heap[rid], k)])
                out.append(('frame-idx(%s)' % rid, f1))
            if iv is not None:
                def f2(s, rid=rid, e0=e0):
                    return qall([k], z3.Implies(k >= ctx.ivval(s), z3.Select(s.heap[rid], k) == z3.Select(e0, k)),
                                     patterns=[z3.Select(s.heap[rid], k)])

                def f3(s, rid=rid, e0=e0):
                    return qall([k], z3.Implies(k < ctx.iv0, z3.Select(s.heap[rid], k) == z3.Select(e0, k)),
                                     patterns=[z3.Select(s.heap[rid], k)])

                def f4(s, rid=rid, e0=e0):
                    return qall([k], z3.Implies(k <= ctx.ivval(s), z3.Select(s.heap[rid], k) == z3.Select(e0, k)),
                                     patterns=[z3.Select(s.heap[rid], k)])
                out.append(('frame-ge(%s)' % rid, f2))
                out.append(('frame-lt(%s)' % rid, f3))
                if ctx.ivstep is not None and ctx.ivstep < 0:
                    out.append(('frame-le(%s)' % rid, f4))
        return out

    def prove_each(self, st, items):
        """the (name, formula) pairs that hold in st; one query for all of them first"""
        if len(items) > 1 and self.prove(st, z3.And([g for _, g in items]), timeout=self.opts.get('batch_ms', 2500)).ok:
            return items
        out = []
        for x in items:
            r = self.prove(st, x[1], timeout=self.opts.get('inv_ms', 2500))
            # a time-out says nothing about the candidate: give it to the other solver before dropping it
            if r.ok or (('canceled' in r.how or 'timeout' in r.how) and solve.USE_CVC5 and solve.cvc5(solve.prepare(st.pc if isinstance(st, State) else st, x[1]), self.opts.get('inv_ms', 2500))):
                out.append(x)
        return out

    def houdini(self, st, ctx, cands, cond, inc, body):
        if self.mode == 'dry':
            return []
        # candidates that did not survive under the stronger outer invariants of an earlier round cannot survive now
        if not self.loopstack:
            self.warm = {}
        wkey = (st.trace, tuple(f.node['id'] for f in self.callstack), ctx.node.get('id', 'synthetic') if ctx.node else None,
                tuple(id(x.node) for x in self.loopstack), len(cands))
        seen = self.warm.get(wkey)
        todo = []
        for ci, (nm, f) in enumerate(cands):
            if seen is not None and ci not in seen:
                continue
            try:
                g = f(st)
            except (KeyError, AttributeError, Unsupported):
                continue
            if g is None:
                continue
            todo.append(((ci, nm, f), g))
        kept = [x for x, _ in self.prove_each(st, todo)]
        tr = TRACE and (lambda what, a, b: print('%6.1f %s@%s depth %d %s: %s' % (time.time() % 10000, self.mode, wkey[2] and astdb.where(ctx.node), len(self.loopstack), what, [x[1] for x in a if x not in b]), flush=True))
        if tr:
            tr('not initial', [x for x, _ in todo], kept)
        saved = self.mode
        self.mode = 'houdini'
        self.loopstack.append(ctx)
        try:
            while True:
                h = self.head(st, ctx, [(nm, f) for _, nm, f in kept])
                h.log = None       # accesses are logged in the pass that follows, under the invariants that survive
                ex, nx, oth = self.iteration(h, cond, inc, body)
                keep2 = kept
                for s in nx:
                    keep2 = [x for x, _ in self.prove_each(s, [(x, x[2](s)) for x in keep2])]
                    if not keep2:
                        break
                if tr:
                    tr('not inductive', kept, keep2)
                if len(keep2) == len(kept):
                    break
                kept = keep2
                if not kept:
                    break
        finally:
            self.mode = saved
            self.loopstack.pop()
        self.warm[wkey] = {ci for ci, _, _ in kept}
        return [(nm, f) for _, nm, f in kept]


TRACE = bool(os.environ.get('DV_TRACE'))


def qall(vs, body, patterns=None):
    """ForAll with patterns where they are legal (an interpreted if-then-else inside an array term is not)"""
    if patterns:
        try:
            return z3.ForAll(vs, body, patterns=patterns)
        except z3.Z3Exception:
            pass
    return z3.ForAll(vs, body)


class PathEnd(Exception):
    pass


class Thrown(Exception):
    def __init__(self, v):
        self.v = v


class RefBox:
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv


class PreVal:
    def __init__(self, v):
        self.v = v


def qualified_member(n, base):
    """a member named with its class (Base::f): called without dynamic dispatch"""
    def off(x, end):
        p = ((x.get('range') or {}).get('end' if end else 'begin') or {})
        p = p.get('expansionLoc', p)
        return p.get('offset'), p.get('tokLen', 0), p.get('_f')
    b = base
    while b.get('kind') == 'ImplicitCastExpr':
        b = inner(b)[0]
    e, _, f = off(n, True)
    if e is None:
        return False
    if b.get('kind') == 'CXXThisExpr' and b.get('implicit'):
        o, _, f1 = off(n, False)
    else:
        o, t, f1 = off(b, True)
        o = None if o is None else o + t
    f = f or f1
    if o is None or o >= e or not f:
        return False
    try:
        return b'::' in open(f, 'rb').read()[o:e]
    except OSError:
        return False


class Bound:
    qualified = False

    def __init__(self, obj, name, did, basenode):
        self.obj, self.name, self.did, self.basenode = obj, name, did, basenode


class LambdaVal:
    def __init__(self, node, depth):
        self.node, self.depth = node, depth


class AddrOf:
    """address of a scalar local or field"""

    def __init__(self, lv):
        self.lv = lv
    null = False


class AllocPtr:
    """result of a raw allocation of n elements, before it is cast to its element type"""

    def __init__(self, n):
        self.n = n
    null = False

    def typed(self, ex, st, pt):
        sort = R if is_float(pt) else I
        unit, stor, ln, kind = 1, 0, self.n, 's'
        blk = ex.opts.get('block')
        if blk and sort == R and blk[0] > 1:
            # arrays of matrix values are viewed block-wise
            q, r = split_off(self.n, blk[0])
            if z3.is_int_value(z3.simplify(r)) and z3.simplify(r).as_long() == 0:
                unit, stor, ln, kind = blk[0], blk[1], z3.simplify(q), 'm'
        rid = ex.new_region(st, 'alloc', sort, unit, ln, kind, stor=stor)
        st.alive[rid] = True
        if ex.opts.get('alloc_hook'):
            ex.opts['alloc_hook'](ex, st, rid, pt, self.n)
        return Ptr(rid, z3.IntVal(0), 1, pt)


def strip(n, casts=True):
    while True:
        k = n.get('kind')
        if k in ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'ParenExpr', 'CXXBindTemporaryExpr', 'ConstantExpr') or \
           (casts and k in TRANSPARENT):
            c = [x for x in inner(n) if x.get('kind') not in ('TemplateArgument', 'NonTypeTemplateParmDecl')]
            if not c:
                return n
            n = c[-1]
        else:
            return n


def opname(n):
    """the operator function a CXXOperatorCallExpr calls"""
    return (strip(inner(n)[0]).get('referencedDecl') or {}).get('name', '')


def find_value(n):
    if 'value' in n:
        return n['value']
    for c in inner(n):
        v = find_value(c)
        if v is not None:
            return v
    return None


def find_kind(n, k):
    if n.get('kind') == k:
        return n
    for c in inner(n):
        r = find_kind(c, k)
        if r is not None:
            return r
    return None


class LoopCtx:
    def __init__(self, ex, st, cond, inc, body, node, mods):
        self.ex, self.entry, self.cond, self.inc, self.node, self.mods = ex, st, cond, inc, node, mods
        self.outer = list(ex.loopstack)
        self.fn = ex.callstack[-1] if ex.callstack else None
        self.iv = None
        self.iv0 = None
        self.ivstep = None
        self.bounds = []
        self.find_iv()

    def find_iv(self):
        """the induction variable: an integer local that is modified in the loop and occurs in the test"""
        refs = []

        def go(n):
            if n.get('kind') == 'DeclRefExpr' and n['referencedDecl']['kind'] in ('VarDecl', 'ParmVarDecl'):
                refs.append(n['referencedDecl']['id'])
            for c in inner(n):
                go(c)
        if self.cond is not None:
            go(self.cond)
        ivs = []
        for r in refs:
            for d in range(self.entry.depth, -1, -1):
                key = (d, r)
                if key in self.entry.env:
                    v = self.entry.env[key]
                    if ('l', key) in self.mods and (hasattr(v, 'at_pos') or z3.is_expr(v) and v.sort() == I) and key not in ivs:
                        ivs.append(key)
                    break
        # prefer one that changes by a constant
        best = None
        for key in ivs:
            step = self.stepof(key)
            if step is not None:
                best = (key, step)
                break
        if best is None and ivs:
            best = (ivs[0], None)
        if best is None:
            # pointer/field-based or none: any int local with constant step
            for m in self.mods:
                if m[0] == 'l' and z3.is_expr(self.entry.env.get(m[1])) and self.entry.env[m[1]].sort() == I:
                    step = self.stepof(m[1])
                    if step is not None:
                        best = (m[1], step)
                        break
        if best is not None:
            self.iv, self.ivstep = best
            self.iv0 = self.ivval(self.entry)
            self.find_bounds()

    def stepof(self, key):
        """constant change per iteration, found syntactically"""
        tgt = key[1]
        steps = []

        def go(n):
            k = n.get('kind')
            if k == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
                s = strip(inner(n)[0])
                if s.get('kind') == 'DeclRefExpr' and s['referencedDecl']['id'] == tgt:
                    steps.append(1 if n['opcode'] == '++' else -1)
            elif k == 'CXXOperatorCallExpr' and opname(n) in ('operator++', 'operator--', 'operator+=', 'operator-=', 'operator='):
                s = strip(inner(n)[1])
                if s.get('kind') == 'DeclRefExpr' and s['referencedDecl']['id'] == tgt:
                    steps.append({'operator++': 1, 'operator--': -1}.get(opname(n)))
            elif k in ('CompoundAssignOperator', 'BinaryOperator') and n.get('opcode', '').endswith('=') and \
                    n['opcode'] not in ('==', '!=', '<=', '>='):
                s = strip(inner(n)[0])
                if s.get('kind') == 'DeclRefExpr' and s['referencedDecl']['id'] == tgt:
                    v = strip(inner(n)[1])
                    if k == 'CompoundAssignOperator' and v.get('kind') == 'IntegerLiteral' and n['opcode'] in ('+=', '-='):
                        steps.append(int(v['value']) * (1 if n['opcode'] == '+=' else -1))
                    elif n['opcode'] == '=':
                        # i = i + c
                        if v.get('kind') == 'BinaryOperator' and v.get('opcode') in ('+', '-'):
                            a, b = [strip(x) for x in inner(v)]
                            if a.get('kind') == 'DeclRefExpr' and a['referencedDecl']['id'] == tgt and b.get('kind') == 'IntegerLiteral':
                                steps.append(int(b['value']) * (1 if v['opcode'] == '+' else -1))
                            else:
                                steps.append(None)
                        else:
                            steps.append(None)
                    else:
                        steps.append(None)
            for c in inner(n):
                go(c)
        if self.inc is not None:
            go(self.inc)
        go_body = []
        from itertools import chain
        for part in (self.node,):
            pass
        if not steps:
            body = self.node
            for c in inner(body):
                if c.get('kind') == 'CompoundStmt' or c.get('kind', '').endswith('Stmt') or c.get('kind', '').endswith('Operator'):
                    go(c)
        if len(steps) == 1 and steps[0]:
            return steps[0]
        return None

    def find_bounds(self):
        """loop-invariant integer terms the induction variable is compared with in the test"""
        tgt = self.iv[1]

        def go(n):
            if n.get('kind') == 'CXXOperatorCallExpr' and opname(n) in ('operator!=', 'operator<'):
                a, b = inner(n)[1:3]
                for x, y in ((a, b), (b, a)):
                    s = strip(x)
                    if s.get('kind') == 'DeclRefExpr' and s['referencedDecl']['id'] == tgt:
                        sv = self.ex.mode
                        try:
                            self.ex.mode = 'dry'
                            rs = self.ex.enumerate_choices(self.entry.copy(), lambda q: self.ex.rv(q, y))
                            if len(rs) == 1 and hasattr(rs[0][1], 'at_pos'):
                                self.bounds.append(z3.simplify(rs[0][1].i))
                        except (Unsupported, Thrown):
                            pass
                        self.ex.mode = sv
                        break
            if n.get('kind') == 'BinaryOperator' and n.get('opcode') in ('<', '>', '<=', '>=', '!='):
                a, b = inner(n)
                for x, y, flip in ((a, b, False), (b, a, True)):
                    s = strip(x)
                    if s.get('kind') == 'DeclRefExpr' and s['referencedDecl']['id'] == tgt:
                        try:
                            sv = self.ex.mode
                            self.ex.mode = 'dry'
                            stc = self.entry.copy()
                            rs = self.ex.enumerate_choices(stc, lambda q: self.ex.as_int(self.ex.rv(q, y)))
                            self.ex.mode = sv
                            if len(rs) == 1:
                                v = z3.simplify(rs[0][1])
                                op = n['opcode']
                                if flip:
                                    op = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '!=': '!='}[op]
                                if op == '<=':
                                    v = v + 1
                                if op == '>':
                                    v = v + 1
                                self.bounds.append(z3.simplify(v))
                        except (Unsupported, Thrown):
                            self.ex.mode = sv
                        break
            for c in inner(n):
                go(c)
        if self.cond is not None:
            go(self.cond)

    def ivval(self, s):
        v = s.env[self.iv]
        return v.i if hasattr(v, 'at_pos') else v

    def invariant_indices(self, idxs):
        """store indices that do not depend on anything the loop modifies"""
        # a term is loop-invariant if it mentions no constant created after loop entry
        if not idxs:
            return None
        out = {}
        lim = self.entry_fresh()
        for x in idxs:
            if max_fresh(x) > lim:
                return None
            out[z3.simplify(x).get_id()] = x
        return list(out.values())

    _ef = None

    def entry_fresh(self):
        if self._ef is None:
            m = 0
            e = self.entry
            for v in list(e.env.values()) + list(e.heap.values()):
                if isinstance(v, Num):
                    continue
                if z3.is_expr(v):
                    m = max(m, max_fresh(v))
            for o in e.objs.values():
                for v in o.values():
                    if z3.is_expr(v):
                        m = max(m, max_fresh(v))
            self._ef = m
        return self._ef


_mf = {}


def max_fresh(e):
    i = e.get_id()
    if i in _mf:
        return _mf[i][1]
    m = 0
    if z3.is_app(e):
        if e.num_args() == 0:
            nm = e.decl().name()
            if '!' in nm:
                t = nm.rsplit('!', 1)[1]
                if t.isdigit():
                    m = int(t)
        for c in e.children():
            m = max(m, max_fresh(c))
    _mf[i] = (e, m)
    return m
