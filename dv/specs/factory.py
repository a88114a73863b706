"""The solver factory: kind, block size, layout and every parameter of the operator it builds; name tables."""
import z3
from fw import *
import engine as E

F = 'src/solverfactory.cpp'
FILES = [F, 'src/solverops_base.cpp', 'src/solverops_jacobi.cpp', 'src/solverops_sgs.cpp', 'src/relaxation_chaotic.cpp', 'src/solverops_ilu0.cpp',
         'src/async_ilu_factor.cpp', 'src/async_blockilu_factor.cpp', 'src/solverops_levels_sgs.cpp', 'src/solverops_levels_ilu0.cpp', 'src/rawsrmatrixutils.cpp', 'src/ilu_pattern.cpp']
(JACOBI, GS, SGS, ILU0, SEQ, SF, SAP, CSC, LSGS, ALILU, NONE, EXT) = range(12)
NAMES = {'none': NONE, 'jacobi': JACOBI, 'gs': GS, 'sgs': SGS, 'ilu0': ILU0, 'seqilu0': SEQ, 'sfilu0': SF, 'sapilu0': SAP, 'cscbgs': CSC,
         'level_sgs': LSGS, 'async_level_ilu0': ALILU}
FACT = {'init_zero': 'INIT_F_ZERO', 'init_original': 'INIT_F_ORIGINAL', 'init_sgs': 'INIT_F_SGS', 'init_none': 'INIT_F_NONE'}
APPLY = {'init_zero': 'INIT_A_ZERO', 'init_jacobi': 'INIT_A_JACOBI', 'init_none': 'INIT_A_NONE'}
APPLYNO = {'INIT_A_ZERO': 0, 'INIT_A_JACOBI': 1, 'INIT_A_NONE': 2}
FACTNO = {'INIT_F_ZERO': 0, 'INIT_F_ORIGINAL': 1, 'INIT_F_SGS': 2, 'INIT_F_NONE': 3}
ROWMAJOR, COLMAJOR = 'RowMajor', 'ColMajor'


def classes(bs, stor):
    """the class each solver type stands for, and its parameters"""
    t = 'blasted::'
    ilu = lambda fa, ap: dict(nbuildsweeps='nbuildsweeps', napplysweeps='napplysweeps', usescaling='scale', thread_chunk_size='thread_chunk_size',
                              factinittype='fact_inittype', applyinittype='apply_inittype', threadedfactor=fa, threadedapply=ap,
                              **{('compute_precinfo' if bs == 1 else 'compute_remainder'): 'compute_precinfo'})
    lev = dict(nbuildsweeps='nbuildsweeps', usescaling='scale', thread_chunk_size='thread_chunk_size', factinittype='fact_inittype', threadedfactor=True,
               **{('compute_precinfo' if bs == 1 else 'compute_remainder'): 'compute_precinfo'})
    sgs = dict(napplysweeps='napplysweeps', ainit='apply_inittype', thread_chunk_size='thread_chunk_size')
    gs = dict(napplysweeps='napplysweeps', thread_chunk_size='thread_chunk_size')
    if bs == 1:
        s = '<double, int>'
        d = {JACOBI: ('JacobiSRPreconditioner', {}), GS: ('ChaoticRelaxation', gs), CSC: ('CSC_BGS_Preconditioner', gs), SGS: ('AsyncSGS_SRPreconditioner', sgs),
             LSGS: ('Level_SGS', {}), ALILU: ('Async_Level_ILU0', lev)}
        n = 'AsyncILU0_SRPreconditioner'
    else:
        s = '<double, int, %d, %s>' % (bs, stor)
        d = {JACOBI: ('BJacobiSRPreconditioner', {}), GS: ('ChaoticBlockRelaxation', gs), SGS: ('AsyncBlockSGS_SRPreconditioner', sgs),
             LSGS: ('Level_BSGS', {}), ALILU: ('Async_Level_BlockILU0', lev)}
        n = 'AsyncBlockILU0_SRPreconditioner'
    d.update({ILU0: (n, ilu(True, True)), SEQ: (n, ilu(False, False)), SF: (n, ilu(False, True)), SAP: (n, ilu(True, False))})
    out = {k: (t + c + s, f) for k, (c, f) in d.items()}
    out[NONE] = (t + 'NoPreconditioner<double, int>', {'ndim': bs})
    return out


def norm(c):
    import re
    c = c.replace('(blasted::StorageOptions)', '').replace('Eigen::', '').replace('blasted::', '').replace(' ', '')
    c = re.sub(r',0>$', ',ColMajor>', c) if c.count(',') == 3 else c
    return re.sub(r',1>$', ',RowMajor>', c) if c.count(',') == 3 else c


def create_task(bs, lay, rest=False):
    """bs, lay: the (block size, layout) case; rest: everything unsupported"""
    def setup(b):
        # the block size of the matrix object itself does not matter to the factory
        m = srmatrix(b, 'A', 1, 0, const=True, diag=True, minnnz=1)
        b.assume(m.n >= 1)
        col = 0 if lay is None else lay
        o = dict(prectype=b.int('prectype'), bs=b.int('bs'), blockstorage=b.int('blockstorage'), relax=b.bool('relax'), thread_chunk_size=b.int('tcs'), scale=b.bool('scale'),
                 nbuildsweeps=b.int('nbuild'), napplysweeps=b.int('napply'), fact_inittype=b.int('finit'), apply_inittype=b.int('ainit'), compute_precinfo=b.bool('info'))
        b.assume(0 <= o['prectype'], o['prectype'] <= EXT)
        sup = z3.Or(o['bs'] == 1, z3.And(o['bs'] == 4, o['blockstorage'] == 0), z3.And(o['bs'] == 5, o['blockstorage'] == 0), z3.And(o['bs'] == 4, o['blockstorage'] == 1))
        if rest:
            b.assume(z3.Not(sup))
        else:
            b.assume(o['bs'] == bs)
            if bs > 1:
                b.assume(o['blockstorage'] == lay)
        so = b.obj('blasted::AsyncSolverSettings', **o)
        return dict(m=m, o=o, this=b.obj('blasted::SRFactory<double, int>'), args=[m.obj, so])

    def post(ex, s, fl, val, c):
        o, m = c['o'], c['m']
        tab = {} if rest else classes(bs, 'RowMajor' if lay == 1 else 'ColMajor')
        if fl == E.Flow.THROW:
            ex.oblige(s, z3.And([o['prectype'] != k for k in tab] + [z3.BoolVal(True)]), 'post: only unsupported combinations are refused')
            return
        if rest or not isinstance(val, E.ObjPtr) or val.ref is None:
            ex.oblige(s, z3.BoolVal(False), 'post: no operator for an unsupported combination, and never a null one')
            return
        ob = s.objs[val.ref.id]
        cls = norm(ob['__cls'])
        mine = [k for k, (q, f) in tab.items() if norm(q) == cls]
        ex.oblige(s, z3.Or([o['prectype'] == k for k in mine] + [z3.BoolVal(False)]), 'post: operator of the requested kind (%s)' % cls)
        ex.oblige(s, z3.BoolVal(s.alive.get(val.ref.id) is True), 'post: a live object')
        for k in mine:
            for f, want in sorted(tab[k][1].items()):
                if f == 'ndim':
                    ex.oblige(s, z3.Implies(o['prectype'] == k, ob[f] == m.n * want), 'post: dimension of the identity')
                    continue
                w = o[want] if isinstance(want, str) else z3.BoolVal(want)
                g = ob.get(f)
                if g is None:
                    ex.oblige(s, z3.BoolVal(False), 'post: %s has no %s' % (cls, f))
                    continue
                if z3.is_bool(w) and not z3.is_bool(g):
                    g = g != 0
                ex.oblige(s, z3.Implies(o['prectype'] == k, g == w), 'post: %s' % f)
        mo = s.objs[ob['mat'].id]
        for f, p in (('browptr', m.pbrow), ('bcolind', m.pcol), ('vals', m.pval), ('diagind', m.pdiag), ('browendptr', m.pend)):
            ex.oblige(s, z3.And(z3.BoolVal(mo[f].reg == p.reg), mo[f].off == p.off), 'post: works on the given %s' % f)
        for f, w in (('nbrows', m.n), ('nnzb', m.nnz), ('nbstored', m.nnz)):
            ex.oblige(s, mo[f] == w, 'post: works on the given matrix (%s)' % f)
    return Task('SRFactory::create_preconditioner %s' % ('unsupported' if rest else 'bs=%d lay=%s' % (bs, lay)), FILES, lambda f: f.qual == 'SRFactory<double,int>::create_preconditioner', setup, post,
                opts={'throws': True, 'par': 'sync'}, budget=300)


def name_task(fn, table, method):
    def setup(b):
        c = dict(s=z3.Const('name', z3.StringSort()))
        c['this'] = b.obj('blasted::SRFactory<double, int>') if method else None
        c['args'] = [E.Str(c['s'])]
        return c

    def post(ex, s, fl, val, c):
        if fl == E.Flow.THROW:
            ex.oblige(s, z3.And([c['s'] != z3.StringVal(n) for n in table]), 'post: only unknown names are refused')
            return
        for n, v in sorted(table.items()):
            ex.oblige(s, z3.Implies(c['s'] == z3.StringVal(n), val == v), 'post: %s' % n)
        ex.oblige(s, z3.Or([c['s'] == z3.StringVal(n) for n in table]), 'post: unknown names are refused')
    return Task(fn, [F], lambda f: f.qual.split('::')[-1] == fn, setup, post, opts={'throws': True})


def bad_settings():
    def setup(b):
        m = srmatrix(b, 'A', 1, 0, const=True, diag=True, minnnz=1)
        b.assume(m.n >= 1)
        so = b.obj('blasted::SolverSettings', prectype=b.int('prectype'), bs=b.int('bs'), blockstorage=b.int('blockstorage'), relax=b.bool('relax'), thread_chunk_size=b.int('tcs'))
        return dict(this=b.obj('blasted::SRFactory<double, int>'), args=[m.obj, so])

    def post(ex, s, fl, val, c):
        ex.oblige(s, z3.BoolVal(fl == E.Flow.THROW), 'post: settings of another kind are refused')
    return Task('SRFactory::create_preconditioner foreign settings', FILES, lambda f: f.qual == 'SRFactory<double,int>::create_preconditioner', setup, post, opts={'throws': True})


def identity_task():
    def setup(b):
        n = b.int('ndim')
        b.assume(n >= 0)
        x, y = b.farr('x', n, 1, const=True), b.farr('y', n, 1)
        c = dict(x=x, y=y, n=n, xh=b.heap(x), args=[x, y])
        c['this'] = b.obj('blasted::NoPreconditioner<double, int>', ndim=n)
        return c

    def cands(lc, c):
        y = c['y'].reg
        return rows_done(lc, 'copy', lambda s, i: sel(s.heap[y], i) == sel(c['xh'], i), lambda s, i: [sel(s.heap[y], i)])

    def post(ex, s, fl, val, c):
        ex.oblige(s, forall(lambda i: implies(rng(0, i, c['n']), sel(s.heap[c['y'].reg], i) == sel(c['xh'], i))), 'post: the identity')
    return Task('NoPreconditioner::apply', ['src/solverops_base.cpp'], lambda f: f.qual == 'NoPreconditioner<double,int>::apply', setup, post, cands, opts={'par': 'sync'})


TASKS = [create_task(1, None), create_task(4, 0), create_task(5, 0), create_task(4, 1), create_task(0, None, True), bad_settings(),
         name_task('solverTypeFromString', NAMES, True), name_task('getFactInitFromString', {k: FACTNO[v] for k, v in FACT.items()}, False),
         name_task('getApplyInitFromString', {k: APPLYNO[v] for k, v in APPLY.items()}, False), identity_task()]


def dim_task(bs, lay, typ, cls):
    q = cls.replace('blasted::', '').replace(' ', '').replace('ColMajor', '0').replace('RowMajor', '1')

    def setup(b):
        m = srmatrix(b, 'A', 1, 0, kind='raw', const=True)
        st = dict(mat=m.obj)
        if typ == NONE:
            st['ndim'] = m.n * bs
        return dict(m=m, this=b.obj(cls.replace('ColMajor', '(blasted::StorageOptions)0').replace('RowMajor', '(blasted::StorageOptions)1'), **st), args=[])

    def post(ex, s, fl, val, c):
        ex.oblige(s, val == c['m'].n * bs, 'post: the number of scalar rows')
    f = 'src/solverops_base.cpp' if 'No' in q else 'src/solverops_ilu0.cpp' if 'ILU' in q else 'src/solverops_sgs.cpp' if 'GS' in q else 'src/solverops_jacobi.cpp'
    return Task(q + '::dim', [f], lambda f: f.qual == q + '::dim', setup, post)


_seen = set()
for _bs, _lay in ((1, 0), (4, 0), (5, 0), (4, 1)):
    for _t, (_c, _f) in sorted(classes(_bs, 'RowMajor' if _lay else 'ColMajor').items()):
        if _c not in _seen and 'Level' not in _c and 'Chaotic' not in _c and not (_t == NONE and _bs > 1) and _t not in (SEQ, SF, SAP):
            _seen.add(_c)
            TASKS.append(dim_task(_bs, _lay, _t, _c))
