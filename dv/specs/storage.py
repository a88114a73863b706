"""Ownership contracts of the array and matrix storage types."""
import os
import z3
from fw import *
import terms

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FA = HERE + '/inst/arrayview.cpp'
F = 'src/rawsrmatrixutils.cpp'


def view(b, T, owner, name):
    """array view satisfying the class invariant; owner: concrete ownership"""
    ln = b.int(name + '_len')
    b.assume(ln >= 0)
    base = T.replace('const ', '')
    p = b.iarr(name, ln, T != base) if base == 'int' else b.farr(name, ln, const=T != base)
    p = E_ptr(p, T)
    if owner:
        b.st.alive[p.reg] = True
    return b.arrayview(p, ln, T, owner=z3.BoolVal(owner)), p, ln


def E_ptr(p, T):
    return E.Ptr(p.reg, p.off, 1, T)


def oblige_view(ex, s, o, reg, ln, owner, what):
    f = s.objs[o.id]
    d = f['data']
    ex.oblige(s, z3.And(z3.BoolVal(d.reg == reg), d.off == 0) if reg is not None else z3.BoolVal(d.reg is None), 'post: data of ' + what)
    ex.oblige(s, f['len'] == ln, 'post: length of ' + what)
    ex.oblige(s, (f['owner'] == owner) if z3.is_expr(f['owner']) else z3.BoolVal(f['owner'] == owner), 'post: ownership of ' + what)


def alive(ex, s, reg, want, what):
    ex.oblige(s, z3.BoolVal(s.alive.get(reg) is want), 'post: ' + what)


def op(T, meth, owner):
    cq = 'blasted::ArrayView<%s>' % T
    short = 'ArrayView<%s>' % T.replace(' ', '')
    names = dict(alloc='ArrayView', wrapc='ArrayView', wrapo='ArrayView', move='ArrayView', dtor='~ArrayView', wrap='wrap', take='take_control',
                 resize='resize', const='move_to_const', index='operator[]')
    base = T.replace('const ', '')

    def select(f):
        if f.name != names[meth]:
            return False
        if meth == 'const':
            return ('ArrayView<%s> &&' % T) in ty(f.params[0])
        if not f.qual.startswith(short + '::'):
            return False
        n = [ty(p) for p in f.params]
        if meth == 'alloc':
            return n == ['const int']
        if meth == 'wrapc':
            return len(n) == 2
        if meth == 'wrapo':
            return len(n) == 3
        if meth == 'move':
            return len(n) == 1 and '&&' in n[0]
        if meth == 'index':
            return f.node['type']['qualType'].rstrip().endswith('const')
        return True

    def setup(b):
        c = dict()
        if meth in ('alloc', 'wrapc', 'wrapo', 'move'):
            c['this'] = b.obj(cq)
        elif meth != 'const':
            c['this'], c['p'], c['len'] = view(b, T, owner, 'own')
        else:
            c['this'] = None
        if meth in ('alloc', 'resize'):
            c['n'] = b.int('size')
            b.assume(c['n'] >= 0)
            c['args'] = [c['n']]
        elif meth in ('wrapc', 'wrapo', 'wrap', 'take'):
            ln = b.int('length')
            b.assume(ln >= 0)
            q = b.iarr('buf', ln, T != base) if base == 'int' else b.farr('buf', ln, const=T != base)
            q = E_ptr(q, T)
            if meth == 'take' or (meth == 'wrapo' and owner):
                b.st.alive[q.reg] = True
            c['q'], c['n'] = q, ln
            c['args'] = [q, ln] + ([z3.BoolVal(owner)] if meth == 'wrapo' else [])
        elif meth in ('move', 'const'):
            c['o'], c['p'], c['len'] = view(b, T, owner, 'src')
            c['args'] = [c['o']]
        elif meth == 'index':
            i = b.int('i')
            b.assume(i >= 0, i < c['len'])
            c['i'] = i
            c['args'] = [i]
        else:
            c['args'] = []
        return c

    def post(ex, s, fl, val, c):
        t = c['this']
        if meth in ('alloc', 'resize'):
            d = s.objs[t.id]['data']
            ex.oblige(s, z3.BoolVal(d.reg is not None and d.reg not in c['entry'].regs and s.alive.get(d.reg) is True),
                      'post: a fresh live buffer is held')
            oblige_view(ex, s, t, d.reg, c['n'], True, 'the array')
            if d.reg in s.regs:
                ex.oblige(s, s.regs[d.reg].len == c['n'], 'post: the buffer holds the requested number of elements')
        if meth in ('wrapc', 'wrap'):
            oblige_view(ex, s, t, c['q'].reg, c['n'], False, 'the array')
        if meth == 'wrapo':
            oblige_view(ex, s, t, c['q'].reg, c['n'], owner, 'the array')
        if meth == 'take':
            oblige_view(ex, s, t, c['q'].reg, c['n'], True, 'the array')
            alive(ex, s, c['q'].reg, True, 'the buffer taken over stays live')
        if meth in ('resize', 'wrap', 'take', 'dtor'):
            alive(ex, s, c['p'].reg, False if owner else None, 'the previous buffer is released exactly when owned')
        if meth == 'dtor':
            ex.oblige(s, z3.Not(s.objs[t.id]['owner']), 'post: nothing owned afterwards')
        if meth in ('move', 'const'):
            r = t if meth == 'move' else val
            oblige_view(ex, s, r, c['p'].reg, c['len'], owner, 'the destination')
            f = s.objs[c['o'].id]
            ex.oblige(s, z3.BoolVal(f['data'].reg is None), 'post: the source is nulled')
            ex.oblige(s, z3.And(f['len'] == 0, z3.Not(f['owner'])), 'post: the source owns nothing')
            alive(ex, s, c['p'].reg, True if owner else None, 'the buffer is not released')
        if meth == 'index':
            x = val
            if isinstance(x, RefBox_):
                x = x.lv
            ok = isinstance(x, E.LElem) and x.reg == c['p'].reg
            ex.oblige(s, z3.And(z3.BoolVal(ok), x.idx == c['i']) if ok else z3.BoolVal(False), 'post: refers to the addressed element')
            oblige_view(ex, s, t, c['p'].reg, c['len'], owner, 'the array')
    return Task('ArrayView<%s>::%s(owner=%s)' % (T, meth, owner), [FA], select, setup, post)


RefBox_ = E.RefBox


def destroy(which):
    name = {'raw': 'alignedDestroyRawBSRMatrix', 'tri': 'alignedDestroyRawBSRMatrixTriangularView'}[which]

    def setup(b):
        m = srmatrix(b, 'A', 1, 0, kind='raw', const=False, wf=False, compact=(which == 'raw'))
        for p in (m.pbrow, m.pcol, m.pval, m.pdiag, m.pend):
            b.st.alive[p.reg] = True
        return dict(m=m, this=None, args=[m.obj])

    def post(ex, s, fl, val, c):
        m = c['m']
        for f, p in (('browptr', m.pbrow), ('bcolind', m.pcol), ('vals', m.pval), ('diagind', m.pdiag), ('browendptr', m.pend)):
            want = False if which == 'raw' or f in ('browptr', 'browendptr') else True
            alive(ex, s, p.reg, want, '%s is %s' % (f, 'released' if not want else 'kept'))
    return Task(name, [F], lambda f: f.name == name, setup, post)


def storage_move(const, owner):
    cls = 'SRMatrixStorage<%s>' % ('const double, const int' if const else 'double, int')
    q = 'const ' if const else ''

    def build(b):
        m = srmatrix(b, 'A', 1, 0, const=const, wf=False, compact=True)
        for f, p in (('browptr', m.pbrow), ('bcolind', m.pcol), ('vals', m.pval), ('diagind', m.pdiag)):
            b.st.objs[b.st.objs[m.obj.id][f].id]['owner'] = z3.BoolVal(owner)
            if owner:
                b.st.alive[p.reg] = True
        return m

    def setup(b):
        m = build(b)
        return dict(m=m, this=b.obj('blasted::' + cls), args=[m.obj])

    def post(ex, s, fl, val, c):
        m = c['m']
        o = s.objs[c['this'].id]
        ex.oblige(s, z3.And(o['nbrows'] == m.n, o['nnzb'] == m.nnz, o['nbstored'] == m.nnz), 'post: sizes')
        src = s.objs[m.obj.id]
        for f, p, ln, own in (('browptr', m.pbrow, m.n + 1, owner), ('bcolind', m.pcol, m.nnz, owner), ('vals', m.pval, m.nnz, owner),
                              ('diagind', m.pdiag, m.n, owner)):
            oblige_view(ex, s, o[f], p.reg, ln, own, f)
            ex.oblige(s, z3.Not(s.objs[src[f].id]['owner']), 'post: the source owns nothing (%s)' % f)
            alive(ex, s, p.reg, True if owner else None, 'no buffer released')
    return Task('%s::move(owner=%s)' % (cls, owner), [F],
                lambda f: f.name == 'SRMatrixStorage' and len(f.params) == 1 and ('SRMatrixStorage<%s> &&' % cls[16:-1]) in ty(f.params[0]),
                setup, post)


def storage_to_const(owner):
    def setup(b):
        m = srmatrix(b, 'A', 1, 0, const=False, wf=False, compact=True)
        for f, p in (('browptr', m.pbrow), ('bcolind', m.pcol), ('vals', m.pval), ('diagind', m.pdiag)):
            b.st.objs[b.st.objs[m.obj.id][f].id]['owner'] = z3.BoolVal(owner)
            if owner:
                b.st.alive[p.reg] = True
        return dict(m=m, this=None, args=[m.obj])

    def post(ex, s, fl, val, c):
        m = c['m']
        o, src = s.objs[val.id], s.objs[m.obj.id]
        ex.oblige(s, z3.And(o['nbrows'] == m.n, o['nnzb'] == m.nnz, o['nbstored'] == m.nnz), 'post: sizes')
        ex.oblige(s, z3.And(src['nbrows'] == 0, src['nnzb'] == 0, src['nbstored'] == 0), 'post: the source is empty')
        for f, p, ln in (('browptr', m.pbrow, m.n + 1), ('bcolind', m.pcol, m.nnz), ('vals', m.pval, m.nnz), ('diagind', m.pdiag, m.n)):
            oblige_view(ex, s, o[f], p.reg, ln, owner, f)
            ex.oblige(s, z3.Not(s.objs[src[f].id]['owner']), 'post: the source owns nothing (%s)' % f)
            alive(ex, s, p.reg, True if owner else None, 'no buffer released')
    return Task('move_to_const(storage, owner=%s)' % owner, [F],
                lambda f: f.name == 'move_to_const' and 'SRMatrixStorage' in ty(f.params[0]), setup, post)


TASKS = []
for T in ('int', 'double'):
    for meth in ('wrapo', 'move', 'dtor', 'wrap', 'take', 'resize', 'const', 'index'):
        for ow in (True, False):
            TASKS.append(op(T, meth, ow))
    for meth in ('alloc', 'wrapc'):
        TASKS.append(op(T, meth, False))
for T in ('const int', 'const double'):
    for meth in ('move', 'dtor', 'wrap'):
        for ow in (True, False):
            TASKS.append(op(T, meth, ow))
TASKS += [destroy('raw'), destroy('tri')] + [storage_move(c, o) for c in (True, False) for o in (True, False)]
TASKS += [storage_to_const(o) for o in (True, False)]
