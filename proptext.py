"""Texts of the properties (properties.jsonl is generated from this file by mkmeta.py)."""
TEXT = {}
NA = {}


def P(pid, title, statement, over, quant, why, files, mech, observe=()):
    assert len(title) <= 80, (pid, len(title))
    TEXT[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=list(observe))


P('P01', 'Sparse matrix-vector products equal the mathematical row sums',
  'For every well-formed square matrix in (block) compressed-sparse-row storage, with scalar entries or dense square blocks of a supported size '
  'and either in-block layout, the product y = A x and the combination z = a A x + b y hold, in every row, exactly the sum over the stored '
  'entries of that row (empty rows give zero, or b y). The vector y may be the same as z. Nothing but the result vector is written and '
  'nothing outside the arrays is accessed.',
  ['inputs', 'schedules'], 'all matrices (any size, any pattern, sorted or not), all vectors and coefficients, all block sizes and layouts instantiated',
  'the tests multiply four fixed matrices by one vector each, in one layout per block size, and never call the combined form on compressed-row matrices',
  ['src/blas/matvecs.cpp', 'include/blockmatrices.hpp', 'src/blockmatrices.ipp'],
  [('block and scalar row-loop products', 'src/blas/matvecs.cpp'), ('matrix views and matrices forwarding to them', 'src/blockmatrices.ipp')],
  ['matrix view apply / gemv3', 'matrix apply / gemv3'])

P('P02', 'Row-to-column storage conversion is exact, and column products agree',
  'Converting any block-row matrix to block-column storage gives exactly the same blocks: each column holds precisely the stored blocks of that '
  'column, ordered by row, with the position of the diagonal block recorded (-1 if absent); the one-based variant is the same with every index and '
  'position increased by one. The product of a column-stored matrix with a vector, and its scaled combination with another vector, equals the '
  'one of the row-stored original.',
  ['inputs', 'schedules'], 'all square block-row matrices with distinct columns per row, any pattern including missing diagonals and empty rows or columns',
  'tests convert two fixed matrices (all with full diagonals) and never call the one-based conversion or the combined product with general coefficients',
  ['src/scmatrix.cpp', 'src/blas/matvecs.cpp', 'include/scmatrixdefs.hpp'],
  [('bucket by column, sort by row, copy out', 'src/scmatrix.cpp convert_BSR_to_BSC'), ('column sweep with atomic row updates', 'src/blas/matvecs.cpp bcsc_gemv3')])

P('P03', 'Coordinate input becomes the same matrix in compressed-row storage',
  'For any list of coordinate entries with distinct positions, in any order, the compressed-row matrix produced (scalar, or with blocks in either layout) '
  'contains exactly those entries: rows in order, columns sorted within a row, values in place, zeros for the unlisted entries of a block that has at least one '
  'listed entry, no other blocks. The recorded diagonal positions point at the diagonal entry or block of every row that has one, and are -1 for the others.',
  ['inputs'], 'all coordinate lists with distinct positions, at least one per row, whose dimension is a multiple of the block size; the text-file header and body reader for well-formed real general files',
  'tests convert two matrix files that are sorted and have full diagonals',
  ['src/coomatrix.cpp', 'include/coomatrix.hpp'],
  [('sort by row then column, row pointers', 'src/coomatrix.cpp readMatrixMarket'), ('entry copy', 'convertToCSR'), ('block discovery and fill', 'convertToBSR')])

P('P04', 'Matrix assembly and diagonal queries act on exactly the addressed entries',
  'Inserting a block stores exactly its values at the addressed position; adding to a block, adding to a diagonal block, scaling the whole matrix, zeroing all entries, '
  'zeroing the diagonal and copying the matrix change exactly the addressed stored entries by exactly the stated amount and leave every other stored value, the '
  'pattern and the recorded diagonal positions alone; additions made concurrently by several threads are all counted. Queries of the diagonal (product, absolute sum, minimum and maximum, number of zeros) report the values of the stored diagonal.',
  ['inputs', 'histories', 'schedules'], 'all patterns, all sequences of the mutating calls, all block sizes instantiated',
  'no test calls the assembly interface; tests build matrices by wrapping arrays',
  ['src/blockmatrices.ipp', 'include/blockmatrices.hpp', 'src/bsrmatrix.cpp', 'src/csrmatrix.cpp'],
  [('search of the column inside the row, then add', 'src/blockmatrices.ipp updateBlock'), ('atomic adds at the recorded diagonal position', 'updateDiagBlock'),
   ('diagonal sums and products', 'getDiagonal*')])

P('P05', 'Incomplete-factorization position lists enumerate exactly the needed products',
  'For every matrix with sorted rows and a full diagonal, the pre-computed position lists give, for each stored entry (i,j), exactly the pairs of stored entries '
  '(i,k) and (k,j) with k smaller than both i and j, each pair once, in increasing k; no other pair appears and the list boundaries are monotone and cover the lists exactly.',
  ['inputs'], 'all square sparse patterns with sorted rows and a diagonal entry in every row, scalar or block',
  'tests only observe the lists through convergence of solves on a few matrices',
  ['src/ilu_pattern.cpp', 'include/ilu_pattern.hpp', 'src/helper_algorithms.cpp'],
  [('merge of row i and column j by two-sided search', 'src/ilu_pattern.cpp'), ('sparse dot-product search', 'src/helper_algorithms.cpp inner_search')])

P('P06', 'Scalar incomplete factorization reproduces the matrix on its pattern',
  'For every sorted scalar matrix with a full diagonal and nonzero pivots, one complete sequential sweep of the factorization leaves unit-lower and upper factors whose '
  'product equals the (optionally symmetrically scaled) matrix at every stored position, whatever the values the sweep started from. Further sweeps leave the factors '
  'unchanged; with no sweep at all the factors are exactly the requested initial guess (zero, the matrix, its triangles with the lower one divided by the pivots, or the previous contents); the reported residual of the factorization is the sum of the mismatches over the stored positions, and the result does not depend on whether scaling is requested '
  'except through the scaling factors themselves.',
  ['inputs', 'histories'], 'all sorted patterns with full diagonal and nonzero pivots, all initial values, every scaling option, any number of sweeps; one thread in row order',
  'tests only observe iteration counts of a solver preconditioned with one matrix',
  ['src/kernels/kernels_ilu0_factorize.hpp', 'src/async_ilu_factor.cpp', 'src/rawsrmatrixutils.cpp'],
  [('fixed-point update of one row', 'src/kernels/kernels_ilu0_factorize.hpp'), ('initialisation and sweeps', 'src/async_ilu_factor.cpp')])

P('P07', 'Block incomplete factorization reproduces the matrix on its block pattern',
  'For every sorted block matrix with a full block diagonal and invertible pivots, one complete sequential sweep of the block factorization leaves unit-lower and upper block '
  'factors (diagonal blocks stored inverted) whose product equals the (optionally symmetrically scaled) matrix at every stored block, whatever the starting values; further sweeps leave the factors unchanged, '
  'and with no sweep at all they are exactly the requested initial guess; the reported residuals are the sums of the mismatches over all stored blocks.',
  ['inputs', 'histories'], 'all sorted block patterns with full diagonal and invertible pivots, block sizes 4 and 5, both layouts, both scaling options, any number of sweeps; one thread in row order',
  'tests only observe iteration counts of a solver on one matrix with block size 4',
  ['src/kernels/kernels_ilu0_factorize.hpp', 'src/async_blockilu_factor.cpp', 'src/rawsrmatrixutils.cpp'],
  [('fixed-point update of one block row', 'src/kernels/kernels_ilu0_factorize.hpp'), ('initialisation, sweeps and inversion', 'src/async_blockilu_factor.cpp')])

P('P08', 'Applying incomplete factors solves the two triangular systems',
  'For every factorization in the stored form, applying it to r with at least one complete sequential sweep per triangle gives z with z = S U^-1 L^-1 S r, '
  'where S is the optional scaling, exactly as forward then backward substitution would, whatever the initial contents of the work vectors and the chosen initial-guess option. '
  'The input vector, the factors and everything outside the output and work vectors are unchanged.',
  ['inputs', 'histories'], 'all sorted patterns with full diagonal, all factor values with nonzero pivots, scalar and block sizes 4 and 5 in both layouts, every initial-guess option, any number of sweeps at least one; one thread',
  'tests apply the factors of two matrices and look only at solver convergence',
  ['src/kernels/kernels_ilu_apply.hpp', 'src/solverops_ilu0.cpp', 'include/solverops_ilu0.hpp'],
  [('row-wise triangular kernels', 'src/kernels/kernels_ilu_apply.hpp'), ('sweeps and scaling', 'src/solverops_ilu0.cpp')])

P('P09', 'Level schedules are valid: no level contains dependent rows',
  'For every matrix with sorted rows and a full diagonal whose pattern is structurally symmetric, the computed levels partition the rows into consecutive non-empty groups covering all rows in order, '
  'and no stored off-diagonal entry joins two rows of the same group.',
  ['inputs'], 'all sorted patterns with a full diagonal, scalar and block',
  'tests check the level boundaries of two fixed matrices',
  ['src/levelschedule.cpp', 'include/levelschedule.hpp'],
  [('greedy scan: a row that couples to the open level starts a new one', 'src/levelschedule.cpp')])

P('P10', 'Level-scheduled solves equal the sequential substitution for any thread count',
  'For every matrix with a valid level schedule, the level-scheduled Gauss-Seidel and incomplete-LU applications give exactly the result of the sequential forward-then-backward '
  'row substitution, for any number of threads and any schedule of the rows inside a level, whatever the previous contents of the output.',
  ['inputs', 'schedules'], 'all sorted structurally symmetric patterns with full diagonal, scalar and block, all vectors, any number of threads',
  'tests never apply the level-scheduled operators; only their level boundaries are checked',
  ['src/solverops_levels_sgs.cpp', 'src/solverops_levels_ilu0.cpp', 'src/levelschedule.cpp'],
  [('parallel loop over the rows of one level', 'src/solverops_levels_sgs.cpp'), ('same for the factors', 'src/solverops_levels_ilu0.cpp')])

P('P11', 'Symmetric Gauss-Seidel preconditioning and relaxation solve their sweeps exactly',
  'For every matrix with sorted rows and invertible diagonal entries or blocks, one complete sequential symmetric Gauss-Seidel application to r gives z = (D+U)^-1 D (D+L)^-1 r whatever the initial-guess option, '
  'and each relaxation iteration replaces every unknown once in ascending and once in descending order by the value that satisfies its own equation with the current values of the others. '
  'The stored inverse diagonal is the inverse of the diagonal of the matrix.',
  ['inputs', 'histories'], 'all sorted patterns with invertible diagonals, scalar and block in both layouts, all vectors, all initial-guess options, any number of sweeps; one thread in row order',
  'tests observe only the iteration count of one solve with scalar symmetric Gauss-Seidel',
  ['src/solverops_sgs.cpp', 'src/kernels/kernels_sgs.hpp', 'src/kernels/kernels_relaxation.hpp', 'src/solverops_jacobi.cpp'],
  [('forward and backward kernels', 'src/kernels/kernels_sgs.hpp'), ('sweeps', 'src/solverops_sgs.cpp'), ('inverse diagonal', 'src/solverops_jacobi.cpp')])

P('P12', 'Jacobi and chaotic relaxation perform exactly the documented row updates',
  'Jacobi preconditioning multiplies by the inverse of the diagonal (entries or blocks); each Jacobi relaxation step updates every unknown from the previous iterate only; each chaotic relaxation step, run '
  'sequentially, updates the unknowns in ascending order from the current iterate. Iteration counts and the convergence tests on the relative, absolute and divergence tolerances are honoured, and the input vector and matrix are unchanged.',
  ['inputs', 'histories', 'schedules'], 'all patterns with invertible diagonals, scalar and block in both layouts, all vectors, tolerances and iteration limits; any number of threads for Jacobi',
  'no test exercises Jacobi or chaotic relaxation here',
  ['src/solverops_jacobi.cpp', 'src/relaxation_chaotic.cpp', 'src/kernels/kernels_relaxation.hpp'],
  [('inverse diagonal and its application', 'src/solverops_jacobi.cpp'), ('row relaxation kernels', 'src/kernels/kernels_relaxation.hpp')])

P('P13', 'Reordering and scaling permute and scale exactly, and are undone exactly',
  'Reordering a vector or a matrix by row and column orderings moves every (block) entry to exactly the position the orderings say, keeping the pattern well formed with sorted rows; the inverse '
  'application restores the original. Row and column scaling multiplies each entry by exactly its row and column factor, and the inverse application divides by them.',
  ['inputs', 'histories'], 'all permutations of rows and of columns, with either or both absent, all vectors and well-formed matrices, block sizes 1, 4 and 7',
  'tests reorder two vectors; no test reorders or scales a matrix',
  ['src/reorderingscaling.cpp', 'include/reorderingscaling.hpp'],
  [('inverse orderings', 'src/reorderingscaling.cpp setOrdering'), ('row moves, column renaming, row sort', 'applyOrdering'), ('scale factors', 'applyScaling')])

P('P14', 'Sorting the rows of a block matrix permutes whole blocks, and sorts',
  'Sorting the column indices within each row leaves every row with increasing column indices and exactly the same (column, block) pairs as before, every block moved intact; '
  'row boundaries do not change, and no other memory is written.',
  ['inputs'], 'all block-row patterns with distinct columns in each row, in any order, all block sizes instantiated',
  'one test sorts one fixed matrix',
  ['src/helper_algorithms.cpp', 'src/helper_algorithms.hpp'], [('in-place sort of column indices and value blocks', 'src/helper_algorithms.cpp sortBlockInnerDimension')])

P('P15', 'Prefix sums are exact for every length and any number of threads',
  'The serial in-place cumulative sum (and its copying form) replaces each entry by the sum of all entries up to and including it. The parallel prefix sum turns an array of counts into offsets: '
  'the first entry becomes zero and every other entry the sum of all entries before it, for every array length and every number of threads, without data races or accesses outside the array.',
  ['inputs', 'schedules'], 'all integer arrays of any length including empty, every number of threads from one upwards',
  'the test runs one array with one and with four threads',
  ['src/helper_algorithms.hpp', 'src/utils/prefix_sum.cpp'], [('serial scan', 'src/helper_algorithms.cpp inclusive_scan'), ('block-wise scan with per-thread totals', 'src/utils/prefix_sum.cpp')])

P('P16', 'Column adjacency lists exactly the entries of every column',
  'The column-adjacency structure built from a row-stored pattern lists, for each column, exactly the stored entries of that column, each once, as (row, position) pairs in increasing row order; the lists of the columns follow one another '
  'without gaps in column order, and the matrix is not changed.',
  ['inputs'], 'all square patterns, with empty rows and columns, missing diagonals and any number of entries',
  'the test checks one fixed pattern',
  ['src/adjacency.cpp', 'src/adjacency.hpp', 'src/helper_algorithms.cpp'], [('count, offset, fill', 'src/adjacency.cpp ColumnAdjacency::compute')])

P('P21', 'Approximate-inverse patterns describe exactly the least-squares systems',
  'The sparse-approximate-inverse pattern lists, for every row, its unknowns (the stored columns of that row), its equations (for the full variant all columns stored in the rows of its unknowns, for the incomplete variant its own columns) '
  'and, for each unknown, exactly the stored entries that couple it to an equation, as positions in the matrix and row numbers in the local system in increasing column order; counts, offsets and the place of the central equation agree with these lists.',
  ['inputs'], 'all square patterns with sorted rows and full diagonals, with compact or separate row ends, both variants',
  'tests check two fixed small matrices',
  ['src/sai.cpp', 'src/sai.hpp'], [('counts, offsets and local positions', 'src/sai.cpp')])

P('P17', 'Array and matrix storage ownership: each buffer freed exactly once, none lost',
  'Whatever sequence of construct, wrap, resize, take-control, move, share and destroy operations is applied to the array and sparse-matrix storage types, each buffer they own is released exactly once and never used afterwards, wrapped '
  'buffers are never released, and moving or sharing preserves sizes and contents.',
  ['histories', 'inputs'], 'all sequences of the public operations on array views and sparse-row storage, and deep copies of raw matrices',
  'no test exercises ownership; leaks and double frees are not looked for',
  ['include/arrayview.hpp', 'include/srmatrixdefs.hpp', 'src/rawsrmatrixutils.cpp', 'src/blockmatrices.ipp'], [('owner flag', 'include/arrayview.hpp'), ('storage moves', 'src/rawsrmatrixutils.cpp')])

P('P18', 'Triangular views and scaling vectors describe exactly the matrix they come from',
  'The lower (upper) triangular view of a matrix with sorted rows and full diagonal covers, row by row, exactly the stored entries with column at most (at least) the row, shares the value and index arrays, and counts its blocks correctly. '
  'The symmetric scaling vector holds the reciprocal square root of each diagonal entry, and deep copies of raw matrices equal the original.',
  ['inputs'], 'all sorted patterns with a full diagonal, any size at least one, scalar and block',
  'no test looks at triangular views or scaling vectors directly',
  ['src/rawsrmatrixutils.cpp', 'include/srmatrixdefs.hpp'], [('row begin/end pointers from diagonal positions', 'src/rawsrmatrixutils.cpp')])

P('P19', 'The solver factory builds exactly the configured operator or refuses',
  'For every combination of preconditioner name, block size, block layout, relaxation flag and threading options, the factory returns an operator of exactly the requested kind, block size and parameters, '
  'or reports an error; no combination yields a null or a different operator. The operator reports the number of scalar rows as its dimension, and the one named none copies its input.',
  ['configurations'], 'all solver names, all supported and unsupported block sizes, both layouts, relaxation on and off, all initialisation options',
  'tests create six of the combinations',
  ['src/solverfactory.cpp', 'include/solverfactory.hpp', 'include/async_initialization_decl.hpp'], [('name to type table', 'src/solverfactory.cpp'), ('class selection', 'src/solverfactory.cpp')])

P('P20', 'Reported diagnostics equal the quantities they name',
  'The largest absolute component of a vector, the average and minimum diagonal dominance of the triangular factors, and the number of zero diagonal entries reported by the library equal those quantities as defined, for every input.',
  ['inputs'], 'all vectors including zero and empty ones, all sorted patterns with full diagonals, scalar and block',
  'no test compares a reported diagnostic with its definition',
  ['src/blas/blas1.cpp', 'src/matrix_properties.cpp', 'src/blockmatrices.ipp'], [('max reduction', 'src/blas/blas1.cpp'), ('row scans', 'src/matrix_properties.cpp')])

P('P31', 'Asynchronous sweeps converge for suitable matrices under any schedule',
  'For every matrix in a suitable class (for example diagonally dominant), the multi-threaded asynchronous factorization and triangular sweeps converge to the sequential result as the number of sweeps grows, under every admissible schedule.',
  ['schedules', 'inputs'], 'all admissible asynchronous schedules', 'tests see one schedule',
  ['src/async_ilu_factor.cpp', 'src/solverops_ilu0.cpp'], [('asynchronous fixed-point iteration', 'src/kernels')])
NA['P31'] = ('a limit statement over unboundedly many data-racy relaxed-memory schedules: it is neither a postcondition nor an invariant of a function, and '
             'function contracts over sequential semantics cannot express convergence in the limit')

P('P32', 'The PETSc interface creates and drives exactly the configured preconditioner',
  'Through the PETSc interface, the options database selects the operator, its block size and sweeps, and the setup, application and destruction callbacks act on the right matrix for each process and level.',
  ['configurations', 'histories'], 'all option databases and PETSc solver trees', 'the PETSc tests are not built here',
  ['src/blasted_petsc.cpp', 'src/utils/blasted_petsc_io.cpp'], [('shell preconditioner callbacks', 'src/blasted_petsc.cpp')])
NA['P32'] = 'the interface unit src/blasted_petsc.cpp includes PETSc private headers that are not installed here (the repository build leaves it out too), so it can be neither parsed by the verifier front end nor compiled; no contract can be checked on it'
