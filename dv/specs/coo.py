"""Coordinate input to compressed-row storage."""
import z3
from fw import *
import engine as E
import terms
import builtins_cxx

F = 'src/coomatrix.cpp'
COO = 'blasted::COOMatrix<double, int>'
ENT = 'std::vector<blasted::Entry<double, int>>'


def coo(b, minrow=1):
    """a coordinate matrix as readMatrixMarket leaves it: entries ordered by row, then column; row pointers; at least one entry in every row"""
    n, nc, nnz = b.int('nrows'), b.int('ncols'), b.int('nnz')
    b.assume(n >= 1, nc >= 1, nnz >= 0)
    this = b.ex.new_obj(b.st, COO, {})
    ent = builtins_cxx.new_vec(b.ex, b.st, ENT, nnz, None)
    ptr = builtins_cxx.new_vec(b.ex, b.st, 'std::vector<int>', n + 1, None)
    b.st.objs[this.id].update(entries=ent, rowptr=ptr, nnz=nnz, nrows=n, ncols=nc)
    b.ex.default_fields(b.st, b.ex.record(COO), this)
    rid = b.st.objs[ent.id]['rid']
    h = lambda f: b.st.heap[rid + '.' + f]
    c = dict(this=this, args=[], n=n, nc=nc, nnz=nnz, er=h('rowind'), ec=h('colind'), ev=h('value'), rp=b.st.heap[b.st.objs[ptr.id]['rid']], rid=rid, prid=b.st.objs[ptr.id]['rid'])
    rp, er, ec = c['rp'], c['er'], c['ec']
    b.assume(sel(rp, 0) == 0, sel(rp, n) == nnz)
    b.assume(forall(lambda i, j: (implies(z3.And(0 <= i, i < j, j <= n), sel(rp, i) < sel(rp, j) if minrow else sel(rp, i) <= sel(rp, j)), [z3.MultiPattern(sel(rp, i), sel(rp, j))]), 2))
    b.assume(forall(lambda i: (implies(z3.And(0 <= i, i <= n), z3.And(0 <= sel(rp, i), sel(rp, i) <= nnz)), [sel(rp, i)])))
    for x, lim in ((er, n), (ec, nc)):
        b.assume(forall(lambda k: (implies(rng(0, k, nnz), rng(0, sel(x, k), lim)), [sel(x, k)])))
    # entry k lies in the section of its row
    b.assume(forall(lambda k: (implies(rng(0, k, nnz), z3.And(sel(rp, sel(er, k)) <= k, k < sel(rp, sel(er, k) + 1))), [sel(er, k)])))
    return c


def inrow(c, i, j):
    """an entry in the section of row i belongs to row i; columns increase"""
    return implies(z3.And(rng(0, i, c['n']), rng(sel(c['rp'], i), j, sel(c['rp'], i + 1))), z3.And(
        sel(c['er'], j) == i, implies(j + 1 < sel(c['rp'], i + 1), sel(c['ec'], j) < sel(c['ec'], j + 1))))


def kept(ex, s, c):
    for f, a in (('rowind', c['er']), ('colind', c['ec']), ('value', c['ev'])):
        ex.oblige(s, s.heap[c['rid'] + '.' + f] == a, 'post: entries unchanged (%s)' % f)
    ex.oblige(s, s.heap[c['prid']] == c['rp'], 'post: row pointers unchanged')


def view_of(ex, s, o, name, ln):
    f = s.objs[s.objs[o.id][name].id]
    d = f['data']
    ex.oblige(s, z3.And(f['len'] == ln, z3.BoolVal(d.reg is not None)), 'post: length of %s' % name)
    if d.reg is None:
        raise E.PathEnd()
    ex.oblige(s, z3.And(s.regs[d.reg].len >= d.off + ln * (s.regs[d.reg].unit if False else 1) if s.regs[d.reg].unit == 1 else z3.BoolVal(True), z3.BoolVal(s.alive.get(d.reg) is not False)), 'post: storage of %s is allocated and not freed' % name)
    return d


FS = 'src/rawsrmatrixutils.cpp'


def tocsr():
    DG = z3.Const('DG', AI)

    def setup(b):
        c = coo(b)
        # DG[i]: position of the diagonal entry of row i, or -1 (positions are distinct, so there is at most one)
        n, rp, er, ec = c['n'], c['rp'], c['er'], c['ec']
        b.assume(forall(lambda i: (implies(rng(0, i, n), z3.Or(sel(DG, i) == -1, z3.And(sel(rp, i) <= sel(DG, i), sel(DG, i) < sel(rp, i + 1)))), [sel(DG, i)])))

        def inst(lc, s):
            if lc.iv is None:
                return []
            l = [L.ivval(s) for L in lc.outer if L.iv is not None] + [lc.ivval(s)]
            if len(l) < 2:
                return []
            i, j = l[0], l[1]
            return [inrow(c, i, j), implies(z3.And(rng(0, i, n), rng(sel(rp, i), j, sel(rp, i + 1))), (sel(ec, j) == i) == (sel(DG, i) == j))]
        c['instances'] = inst
        return c

    def cands(lc, c):
        if lc.iv is None:
            return []
        out = []
        ol = [x for x in lc.outer if x.iv is not None]
        for r in new_regions(lc, I) + new_regions(lc, R):
            if '.' in r:
                continue
            h = lambda s, t, r=r: sel(s.heap[r], t)
            for nm, a in (('columns', c['ec']), ('values', c['ev']), ('pointers', c['rp'])):
                if a.sort() == lc.entry.heap[r].sort():
                    out.append(('%s(%s)' % (nm, r), lambda s, h=h, a=a: forall(lambda t: (implies(rng(0, t, lc.ivval(s)), h(s, t) == sel(a, t)), [h(s, t)]))))
            if lc.entry.heap[r].sort() == AI:
                if ol:
                    i = ol[-1].ivval
                    out.append(('diag-at(%s)' % r, lambda s, h=h: h(s, i(s)) == z3.If(z3.And(sel(DG, i(s)) >= 0, sel(DG, i(s)) < lc.ivval(s)), sel(DG, i(s)), z3.IntVal(-1))))
                else:
                    out.append(('diag(%s)' % r, lambda s, h=h: forall(lambda t: (implies(rng(0, t, lc.ivval(s)), h(s, t) == sel(DG, t)), [h(s, t)]))))
        return out

    def post(ex, s, fl, val, c):
        o = s.objs[val.id]
        n, nnz = c['n'], c['nnz']
        ex.oblige(s, z3.And(o['nbrows'] == n, o['nnzb'] == nnz, o['nbstored'] == nnz), 'post: sizes')
        for nm, ln, a in (('browptr', n + 1, c['rp']), ('bcolind', nnz, c['ec']), ('vals', nnz, c['ev']), ('diagind', n, DG)):
            d = view_of(ex, s, val, nm, ln)
            ex.oblige(s, z3.And(d.off == 0, forall(lambda t: implies(rng(0, t, ln), sel(s.heap[d.reg], t) == sel(a, t)))), 'post: %s' % nm)
        d, p = view_of(ex, s, val, 'browendptr', n), s.objs[o['browptr'].id]['data']
        ex.oblige(s, z3.And(z3.BoolVal(d.reg == p.reg), d.off == 1), 'post: row ends are the starts of the next rows')
        ex.oblige(s, z3.Not(s.objs[o['browendptr'].id]['owner']), 'post: row ends are not owned twice')
        kept(ex, s, c)
    q = 'COOMatrix<double,int>::convertToCSR'
    return Task(q, [F, FS], lambda f: f.qual == q or f.qual == 'blasted::' + q, setup, post, cands)


TASKS = [tocsr()]
