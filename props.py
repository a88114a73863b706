"""Registry: property -> contract tasks and compiled conformance drivers."""
TRUSTED = [
    'clang 18 front end (typed AST of the current sources, all template instantiations)',
    'the verifier in /verif/dv (executor, invariant inference, lemma instantiation)',
    'z3 5.3.2, cvc5 1.1.2',
    'trusted contracts for Eigen fixed-size algebra, std::vector, boost aligned allocation, <cmath> (dv/builtins_cxx.py)',
    'sum lemmas of dv/terms.py (re-proved by induction on every run)',
]
ASSUMPTIONS = [
    'machine integers are treated as mathematical integers (no overflow of int)',
    'floating point is treated as exact field/block-algebra arithmetic: rounding, overflow and NaN are not modelled',
    'distinct pointer parameters do not overlap except where the contract says so (restrict / caller obligation)',
    'allocation succeeds',
]
DRIVER_RULE = ('random small block-sparse structures (0..12 block rows, empty rows, full rows, unsorted variants where allowed), '
               'compared with a naive dense oracle; every case has a fresh structure and values')

NOTE = ('Every obligation generated from the current sources (postcondition, invariants, bounds, independence of parallel iterations) is accepted by z3 or cvc5 '
        'for all inputs and iterations; mathematical integers and exact field arithmetic; Eigen/std/OpenMP contracts trusted. The compiled driver is bounded and only supplies failing inputs.')

PROPS = {}


def prop(pid, title, **k):
    k['title'] = title
    PROPS[pid] = k


def allsrc(repo):
    """every library source that builds here (the PETSc interface needs PETSc headers)"""
    import glob, os
    out = []
    for f in sorted(glob.glob(repo + '/src/*.cpp') + glob.glob(repo + '/src/blas/*.cpp') + glob.glob(repo + '/src/utils/*.cpp')):
        if 'petsc' not in os.path.basename(f) and os.path.basename(f) not in ('solverops_sgs_sai.cpp', 'cmdoptions.cpp'):
            out.append(os.path.relpath(f, repo))
    return out


MATSRC = ['src/bsrmatrix.cpp', 'src/csrmatrix.cpp', 'src/blas/matvecs.cpp', 'src/rawsrmatrixutils.cpp', 'src/reorderingscaling.cpp',
          'src/helper_algorithms.cpp']
prop('P01', 'Sparse matrix-vector products equal the mathematical row sums',
     specs=['matvec'],
     drivers=[dict(src='matvec.cpp', repo=MATSRC, cases=dict(quick=300, thorough=5000),
                   threads=[1, 3])])
prop('P18', 'Triangular views and scaling vectors describe exactly the matrix they come from',
     specs=['views'],
     drivers=[dict(src='views.cpp', repo=['src/rawsrmatrixutils.cpp'], cases=dict(quick=300, thorough=5000), threads=[1, 3], leaks=True)])
prop('P17', 'Array and matrix storage ownership: each buffer freed exactly once, none lost',
     specs=['storage', ('assembly', lambda t: 'wrap)' in t.name or 'take over' in t.name or 'copy' in t.name)],
     drivers=[dict(src='storage.cpp', repo=MATSRC, cases=dict(quick=600, thorough=20000), threads=[1, 2], leaks=True)])
prop('P04', 'Matrix assembly and diagonal queries act on exactly the addressed entries',
     specs=['assembly'],
     drivers=[dict(src='assembly.cpp', repo=MATSRC, cases=dict(quick=1500, thorough=20000), threads=[1, 4], leaks=True)])
SOLBASE = ['src/solverops_base.cpp', 'src/rawsrmatrixutils.cpp', 'src/helper_algorithms.cpp', 'src/blas/matvecs.cpp', 'src/blas/blas1.cpp', 'src/utils/prefix_sum.cpp']
RELSRC = SOLBASE + ['src/solverops_jacobi.cpp', 'src/solverops_sgs.cpp', 'src/relaxation_chaotic.cpp', 'src/scmatrix.cpp', 'src/adjacency.cpp']
ILUSRC = SOLBASE + ['src/solverops_ilu0.cpp', 'src/async_ilu_factor.cpp', 'src/async_blockilu_factor.cpp', 'src/ilu_pattern.cpp', 'src/adjacency.cpp',
                    'src/matrix_properties.cpp', 'src/reorderingscaling.cpp', 'src/scmatrix.cpp', 'src/levelschedule.cpp', 'src/solverops_levels_ilu0.cpp']
SEQ = ['sweeps declared asynchronous are verified for one thread in program order (their multi-threaded results are unspecified)']
prop('P08', 'Applying incomplete factors solves the two triangular systems',
     specs=['tri'], assumptions=SEQ,
     drivers=[dict(src='iluapply.cpp', repo=ILUSRC, cases=dict(quick=1500, thorough=20000), threads=[1, 3])])
prop('P05', 'Incomplete-factorization position lists enumerate exactly the needed products',
     specs=['ilupattern'],
     drivers=[dict(src='ilupattern.cpp', repo=['src/ilu_pattern.cpp', 'src/helper_algorithms.cpp'], cases=dict(quick=6000, thorough=100000), threads=[1])])
FACASSUME = SEQ + ['the position lists of the factorization are those of property P05']
prop('P06', 'Scalar incomplete factorization reproduces the matrix on its pattern',
     specs=[('ilu', lambda t: t.bs == 1)], assumptions=FACASSUME,
     drivers=[dict(src='ilu.cpp', repo=ILUSRC, flags=['-DWHICH=1'], cases=dict(quick=3000, thorough=40000), threads=[1, 3])])
prop('P07', 'Block incomplete factorization reproduces the matrix on its block pattern',
     specs=[('ilu', lambda t: t.bs > 1)], assumptions=FACASSUME,
     drivers=[dict(src='ilu.cpp', repo=ILUSRC, flags=['-DWHICH=2'], cases=dict(quick=1500, thorough=20000), threads=[1, 3])])
prop('P11', 'Symmetric Gauss-Seidel preconditioning and relaxation solve their sweeps exactly',
     specs=[('relax', lambda t: t.group == 'sgs')], assumptions=SEQ,
     drivers=[dict(src='relax.cpp', repo=RELSRC, flags=['-DWHICH=1'], cases=dict(quick=1500, thorough=20000), threads=[1, 3])])
prop('P12', 'Jacobi and chaotic relaxation perform exactly the documented row updates',
     specs=[('relax', lambda t: t.group == 'rel')], assumptions=SEQ,
     drivers=[dict(src='relax.cpp', repo=RELSRC, flags=['-DWHICH=2'], cases=dict(quick=1500, thorough=20000), threads=[1, 3])])
prop('P14', 'Sorting the rows of a block matrix permutes whole blocks, and sorts',
     specs=['sort'],
     drivers=[dict(src='sort.cpp', repo=['src/helper_algorithms.cpp'], cases=dict(quick=3000, thorough=50000), threads=[1])])
prop('P15', 'Prefix sums are exact for every length and any number of threads',
     specs=['scan'],
     drivers=[dict(src='scan.cpp', repo=['src/helper_algorithms.cpp', 'src/utils/prefix_sum.cpp'], cases=dict(quick=4000, thorough=50000), threads=[4])])
prop('P20', 'Reported diagnostics equal the quantities they name',
     specs=['diagnostics', ('assembly', lambda t: 'iagonal' in t.name and '<double,int,1>::' in t.name and 'submit' not in t.name and 'set' not in t.name and 'update' not in t.name)],
     drivers=[dict(src='diagnostics.cpp', repo=['src/matrix_properties.cpp', 'src/blas/blas1.cpp'] + MATSRC, cases=dict(quick=3000, thorough=40000), threads=[1, 4])])
LEVSRC = sorted(set(RELSRC + ILUSRC + ['src/solverops_levels_sgs.cpp']))
prop('P10', 'Level-scheduled solves equal the sequential substitution for any thread count',
     specs=['levels'], assumptions=['the schedule returned by computeLevels is valid (property P09)', 'the base-class factorization called by compute() is assumed here (properties P06 and P07)'],
     drivers=[dict(src='levels.cpp', repo=LEVSRC, cases=dict(quick=1500, thorough=20000), threads=[1, 3, 4])])
prop('P19', 'The solver factory builds exactly the configured operator or refuses',
     specs=['factory'],
     drivers=[dict(src='factory.cpp', repo=sorted(set(LEVSRC + ['src/solverfactory.cpp'])), cases=dict(quick=4000, thorough=40000), threads=[1])])
prop('P16', 'Column adjacency lists exactly the entries of every column',
     specs=['adjacency'],
     drivers=[dict(src='adjacency.cpp', repo=['src/adjacency.cpp', 'src/helper_algorithms.cpp', 'src/rawsrmatrixutils.cpp'], cases=dict(quick=6000, thorough=100000), threads=[1, 3])])
BOUNDED = 'bounded check, not a proof: '
prop('P21', 'Approximate-inverse patterns describe exactly the least-squares systems',
     specs=['sai'], assumptions=['std::set keeps the inserted values without repetition in increasing order, and its traversal follows that order (trusted library contract: size is the number of values, the place of a value is the number of smaller ones)'],
     drivers=[dict(src='sai.cpp', repo=['src/sai.cpp', 'src/helper_algorithms.cpp', 'src/rawsrmatrixutils.cpp'], cases=dict(quick=20000, thorough=300000), threads=[1, 3])],
     driver_rule='random patterns with sorted rows and full diagonals (no two alike counted twice), compact or gapped row storage, full and incomplete variant; non-trivial: distinct description')
prop('P03', 'Coordinate input becomes the same matrix in compressed-row storage',
     specs=['coo'], level='exploration', technique='convertToCSR: contract-based deductive verification of the current source; readMatrixMarket and convertToBSR: bounded stand-in (compiled conformance driver)',
     note='convertToCSR is proved for all inputs (contract in dv/specs/coo.py); the reader and the block conversion are a ' + BOUNDED[0].lower() + BOUNDED[1:] + 'coordinate files up to 12 rows (scalar) and 5 block rows (blocks of 3, 4 and 7), written to a scratch directory and read back, under address and undefined-behaviour sanitizers.',
     drivers=[dict(src='coo.cpp', repo=['src/coomatrix.cpp', 'src/rawsrmatrixutils.cpp'], cases=dict(quick=6000, thorough=100000), threads=[1])],
     driver_rule='random coordinate lists in random order with at least one entry per row, comments and number formats varied; non-trivial: distinct description')
prop('P13', 'Reordering and scaling permute and scale exactly, and are undone exactly',
     specs=['reorder', ('sort', lambda t: any(t.name.endswith(',%d>' % b) for b in (1, 4, 7)))],
     drivers=[dict(src='reorder.cpp', repo=['src/reorderingscaling.cpp', 'src/rawsrmatrixutils.cpp', 'src/helper_algorithms.cpp'], cases=dict(quick=3000, thorough=50000), threads=[1, 3])],
     driver_rule='random permutations and scalings on random matrices; non-trivial: distinct description')
prop('P02', 'Row-to-column storage conversion is exact, and column products agree',
     specs=['bsc'], assumptions=['a sum over the stored entries of a row does not depend on the order of the entries (the product of the column storage is proved as the sum over all slots with that row)', 'std::sort leaves an already strictly increasing range alone'],
     drivers=[dict(src='bsc.cpp', repo=sorted(set(RELSRC)), cases=dict(quick=3000, thorough=50000), threads=[1, 3])],
     driver_rule='random block patterns including missing diagonals, empty rows and columns; non-trivial: distinct description')
prop('P09', 'Level schedules are valid: no level contains dependent rows',
     specs=['schedule'], assumptions=['std::list keeps the values pushed back in increasing order; front, traversal, find and erase act on that order (trusted library contract)', 'termination of the computation is not proved'],
     drivers=[dict(src='schedule.cpp', repo=['src/levelschedule.cpp', 'src/rawsrmatrixutils.cpp'], cases=dict(quick=20000, thorough=200000), threads=[1])],
     driver_rule='random structurally symmetric patterns; non-trivial: distinct description')
