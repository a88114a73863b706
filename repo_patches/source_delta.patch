From a617a98d61eceea98db69118c2937c66131c0fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:49 +0000
Subject: [PATCH 01/15] fix: block structure constructor uses the given number
 of block-rows

BSRMatrix<bs>(n_brows,bcinds,brptrs) sized everything from the default
mat.nbrows (0), so the matrix was always empty.
---
 src/blockmatrices.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 61ae16e..bb5cdfb 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -176,6 +176,9 @@ BSRMatrix<scalar,index,bs>::BSRMatrix(const index n_brows,
 	: AbstractMatrix<scalar,index>(BSR)
 {
 	constexpr int bs2 = bs*bs;
+	mat.nbrows = n_brows;
+	mat.nnzb = brptrs[n_brows];
+	mat.nbstored = mat.nnzb;
 	mat.browptr.resize(mat.nbrows+1);
 	mat.bcolind.resize(brptrs[mat.nbrows]);
 	mat.diagind.resize(mat.nbrows);
-- 
2.43.0


From 88916a7e2c6ddbdcd05d3fcc3ad25f4ef1b6030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:49 +0000
Subject: [PATCH 02/15] fix: CSR wrapping constructor reads the number of
 entries from the last row pointer

brptrs[nrows+1] is one past the end of the caller's array.
---
 src/blockmatrices.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index bb5cdfb..17fda0d 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -497,7 +497,7 @@ BSRMatrix<scalar,index,1>::BSRMatrix(const index nrows, index *const brptrs,
 	: AbstractMatrix<scalar,index>(CSR)
 {
 	mat.nbrows = nrows;
-	mat.nnzb = brptrs[nrows+1];
+	mat.nnzb = brptrs[nrows];
 	mat.nbstored = mat.nnzb;
 	mat.browptr.wrap(brptrs, nrows+1);
 	mat.bcolind.wrap(bcinds, mat.nnzb);
-- 
2.43.0


From 02bc208f850e593e167930de030c6aeb4df3c374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:49 +0000
Subject: [PATCH 03/15] fix: block matrix taken over from a raw matrix records
 all nbrows+1 row pointers

The view was one short, so copying the matrix read past a recorded size.
---
 src/blockmatrices.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 17fda0d..b037682 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -216,7 +216,7 @@ BSRMatrix<scalar,index,bs>::BSRMatrix(RawBSRMatrix<scalar,index>& rmat)
 	: AbstractMatrix<scalar,index>(BSR)
 {
 	// Make sure to pass aligned memory!
-	mat.browptr.take_control(rmat.browptr, rmat.nbrows);
+	mat.browptr.take_control(rmat.browptr, rmat.nbrows+1);
 	mat.bcolind.take_control(rmat.bcolind, rmat.nbstored);
 	mat.vals.take_control(rmat.vals, rmat.nbstored*bs*bs);
 	mat.nbrows = rmat.nbrows;
-- 
2.43.0


From 1e2123217e8b52d227c2d2dd84c74f23e82ce4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:49 +0000
Subject: [PATCH 04/15] fix: CSR matrix takes over the raw matrix it is
 constructed from

The arrays were only wrapped while the raw matrix was nulled, so nobody
freed them although the constructor is documented to transfer them.
---
 src/blockmatrices.ipp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index b037682..65a8286 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -508,19 +508,19 @@ BSRMatrix<scalar,index,1>::BSRMatrix(const index nrows, index *const brptrs,
 
 template <typename scalar, typename index>
 BSRMatrix<scalar,index,1>::BSRMatrix(RawBSRMatrix<scalar,index>& rmat)
-	: AbstractMatrix<scalar,index>(CSR),
-	  mat(rmat.browptr, rmat.bcolind, rmat.vals, rmat.diagind,
-	      rmat.nbrows>0 ? &rmat.browptr[1]:nullptr, rmat.nbrows, rmat.nnzb, rmat.nbstored, 1)
+	: AbstractMatrix<scalar,index>(CSR)
 {
 	assert(rmat.nnzb == rmat.nbstored);
 	mat.nbrows = rmat.nbrows;
 	mat.nnzb = rmat.nnzb;
 	mat.nbstored = rmat.nbstored;
-	mat.browptr.wrap(rmat.browptr, rmat.nbrows+1);
-	mat.bcolind.wrap(rmat.bcolind, mat.nbstored);
-	mat.vals.wrap(rmat.vals, mat.nbstored);
-	mat.diagind.wrap(rmat.diagind, mat.nbrows);
-	mat.browendptr.wrap(&rmat.browptr[1], mat.nbrows);
+	// Make sure to pass aligned memory!
+	mat.browptr.take_control(rmat.browptr, rmat.nbrows+1);
+	mat.bcolind.take_control(rmat.bcolind, mat.nbstored);
+	mat.vals.take_control(rmat.vals, mat.nbstored);
+	mat.diagind.take_control(rmat.diagind, mat.nbrows);
+	if(mat.nbrows > 0)
+		mat.browendptr.wrap(&rmat.browptr[1], mat.nbrows);
 
 	rmat.nbrows=0;
 	rmat.browptr = rmat.bcolind = rmat.diagind = rmat.browendptr = nullptr; rmat.vals = nullptr;
-- 
2.43.0


From f0c497d028127cf4317d7b5ca888798de2ff661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:49 +0000
Subject: [PATCH 05/15] fix: mark rows without a stored diagonal block when
 setting the structure

The diagonal position stayed uninitialised for them; the COO conversions use -1.
---
 src/blockmatrices.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 65a8286..21f3a89 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -191,6 +191,7 @@ BSRMatrix<scalar,index,bs>::BSRMatrix(const index n_brows,
 	// set diagonal blocks' locations
 	for(index irow = 0; irow < mat.nbrows; irow++) 
 	{
+		mat.diagind[irow] = -1;
 		for(index j = mat.browptr[irow]; j < mat.browptr[irow+1]; j++)
 			if(mat.bcolind[j] == irow) {
 				mat.diagind[irow] = j;
@@ -292,6 +293,7 @@ void BSRMatrix<scalar,index,bs>::setStructure(const index n_brows,
 	// set diagonal blocks' locations
 	for(index irow = 0; irow < mat.nbrows; irow++) 
 	{
+		mat.diagind[irow] = -1;
 		for(index j = mat.browptr[irow]; j < mat.browptr[irow+1]; j++)
 			if(mat.bcolind[j] == irow) {
 				mat.diagind[irow] = j;
@@ -477,6 +479,7 @@ BSRMatrix<scalar,index,1>::BSRMatrix(const index n_brows,
 
 	// set diagonal blocks' locations
 	for(index irow = 0; irow < mat.nbrows; irow++) {
+		mat.diagind[irow] = -1;
 		for(index j = mat.browptr[irow]; j < mat.browptr[irow+1]; j++)
 			if(mat.bcolind[j] == irow) {
 				mat.diagind[irow] = j;
@@ -582,6 +585,7 @@ void BSRMatrix<scalar,index,1>::setStructure(const index n_brows,
 
 	// set diagonal blocks' locations
 	for(index irow = 0; irow < mat.nbrows; irow++) {
+		mat.diagind[irow] = -1;
 		for(index j = mat.browptr[irow]; j < mat.browptr[irow+1]; j++)
 			if(mat.bcolind[j] == irow) {
 				mat.diagind[irow] = j;
-- 
2.43.0


From a34f5fd14617d150b63a5765b5e7c76d6cfe8678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 06/15] fix: CSR updateBlock reads the row-major buffer with
 its number of columns

Rows of a bsi x bsj block are bsj entries apart, as in submitBlock.
---
 src/blockmatrices.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 21f3a89..8016afa 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -685,7 +685,7 @@ void BSRMatrix<scalar,index,1>::updateBlock(const index starti, const index star
 				std::cout << "!  BSRMatrix<1>: updateBlock: Invalid block!!\n";
 #endif
 #pragma omp atomic update
-			mat.vals[jj] += buffer[locrow*bsi+k];
+			mat.vals[jj] += buffer[locrow*bsj+k];
 			k++;
 		}
 	}
-- 
2.43.0


From 4a92e4ac0c40b1ab61bf61a9bbf4ab87f5120625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 07/15] fix: apply incomplete factors when no initial guess is
 requested (INIT_A_NONE threw)

---
 src/solverops_ilu0.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solverops_ilu0.cpp b/src/solverops_ilu0.cpp
index 432de49..bd44630 100644
--- a/src/solverops_ilu0.cpp
+++ b/src/solverops_ilu0.cpp
@@ -122,6 +122,8 @@ void block_ilu0_apply(const CRawBSRMatrix<scalar,index> *const mat,
 			zz[i] = 0;
 		}
 		break;
+	case INIT_A_NONE:
+		break;
 	default:
 		throw std::runtime_error(" scalar_ilu0_apply: Invalid init type!");
 	}
@@ -295,6 +297,8 @@ void scalar_ilu0_apply(const CRawBSRMatrix<scalar,index> *const mat,
 			za[i] = 0;
 		}
 		break;
+	case INIT_A_NONE:
+		break;
 	default:
 		throw std::runtime_error(" scalar_ilu0_apply: Invalid init type!");
 	}
-- 
2.43.0


From f48862b4c4a418e16269609cb2480dfa599471ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 08/15] fix: prefix_sum with few entries or many threads

Threads whose chunk lies past the end read and wrote outside the array, and
the number of merge levels was computed with the natural logarithm, which is
too small for e.g. five threads.
---
 src/utils/prefix_sum.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/utils/prefix_sum.cpp b/src/utils/prefix_sum.cpp
index e94dbc9..dec5121 100644
--- a/src/utils/prefix_sum.cpp
+++ b/src/utils/prefix_sum.cpp
@@ -32,10 +32,13 @@ void prefix_sum(IndexType *const counts, const int num_entries)
 #pragma omp parallel
     {
         const int thread_id = omp_get_thread_num();
-        const IndexType startidx = thread_id * def_num_witems;
+        const IndexType startidx =
+            std::min(num_entries, thread_id * def_num_witems);
         const IndexType endidx =
             std::min(num_entries, (thread_id + 1) * def_num_witems);
-        const IndexType startval = counts[startidx];
+        // trailing threads may have nothing to do
+        const IndexType startval =
+            startidx < num_entries ? counts[startidx] : 0;
 
 #pragma omp barrier
 
@@ -45,14 +48,14 @@ void prefix_sum(IndexType *const counts, const int num_entries)
             counts[i] = partial_sum;
             partial_sum += nnz;
         }
-        if (thread_id != nthreads - 1) {
+        if (endidx < num_entries) {
             counts[endidx] = partial_sum;
         }
     }
 
     counts[0] = 0;
 
-    const auto levels = static_cast<int>(std::ceil(std::log(nthreads)));
+    const auto levels = static_cast<int>(std::ceil(std::log2(nthreads)));
     for (int ilvl = 0; ilvl < levels; ilvl++) {
         const IndexType factor = power(2, (ilvl + 1));
         const IndexType lvl_num_witems = factor * def_num_witems;
-- 
2.43.0


From d28bb90f4b22731e227893a329e98f803504ff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 09/15] fix: prefix_sum merge tasks past the end read an entry
 another task writes

---
 src/utils/prefix_sum.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/prefix_sum.cpp b/src/utils/prefix_sum.cpp
index dec5121..f0c78fd 100644
--- a/src/utils/prefix_sum.cpp
+++ b/src/utils/prefix_sum.cpp
@@ -67,7 +67,9 @@ void prefix_sum(IndexType *const counts, const int num_entries)
                 num_entries, lvl_num_witems / 2 + itask * lvl_num_witems + 1);
             const IndexType endidx =
                 std::min(num_entries, (itask + 1) * lvl_num_witems + 1);
-            const IndexType baseval = counts[startidx - 1];
+            // tasks past the end have nothing to do, and another task writes the last entry
+            const IndexType baseval =
+                startidx < num_entries ? counts[startidx - 1] : 0;
             for (int i = startidx; i < endidx; i++) {
                 counts[i] += baseval;
             }
-- 
2.43.0


From 7692c0261e39eb5757efd6c44a65d6fc5ee182ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 10/15] fix: maxnorm of a zero vector is zero (started from the
 smallest positive number)

---
 src/blas/blas1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/blas1.cpp b/src/blas/blas1.cpp
index 2b283fa..3807d78 100644
--- a/src/blas/blas1.cpp
+++ b/src/blas/blas1.cpp
@@ -12,7 +12,7 @@ namespace blasted {
 template <typename scalar>
 scalar maxnorm(const device_vector<scalar>& vec)
 {
-	scalar smax = std::numeric_limits<scalar>::min();
+	scalar smax = 0;
 	const int N = static_cast<int>(vec.size());
 
 #pragma omp parallel for default(shared) reduction(max:smax)
-- 
2.43.0


From 9f95910b04607a8abfcf54f17f99552601f968df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 11/15] fix: scalar level-scheduled ILU passes its threading
 and info options in the right positions

---
 src/solverops_levels_ilu0.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solverops_levels_ilu0.cpp b/src/solverops_levels_ilu0.cpp
index 1d43d6a..b4e5e3e 100644
--- a/src/solverops_levels_ilu0.cpp
+++ b/src/solverops_levels_ilu0.cpp
@@ -127,7 +127,8 @@ Async_Level_ILU0<scalar,index>
                    const FactInit fact_inittype, const bool threadedfactor,
                    const bool compute_remainder)
 	: AsyncILU0_SRPreconditioner<scalar,index>(std::move(matrix), nbuildsweeps,1,use_scaling,thread_chunk_size,
-	                                           fact_inittype, INIT_A_NONE, threadedfactor, true)
+	                                           fact_inittype, INIT_A_NONE, compute_remainder,
+	                                           threadedfactor, true)
 { }
 
 template <typename scalar, typename index>
-- 
2.43.0


From 0cce03dfa4bcbe59de2a87498d9ce6aaef040261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:33 +0000
Subject: [PATCH 12/15] fix: the zero initial guess of the scalar factorization
 is not overwritten by the matrix (missing breaks)

---
 src/async_ilu_factor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/async_ilu_factor.cpp b/src/async_ilu_factor.cpp
index e7b218f..ca7a3a7 100644
--- a/src/async_ilu_factor.cpp
+++ b/src/async_ilu_factor.cpp
@@ -49,6 +49,7 @@ PrecInfo scalar_ilu0_factorize(const CRawBSRMatrix<scalar,index> *const mat,
 #pragma omp parallel for simd default(shared)
 		for(index i = 0; i < mat->browptr[mat->nbrows]; i++)
 			iluvals[i] = 0;
+		break;
 	case INIT_F_ORIGINAL:
 		fact_init_original(mat, scale, iluvals);
 		break;
@@ -250,6 +251,7 @@ void scalar_ilu0_factorize_noscale(const CRawBSRMatrix<scalar,index> *const mat,
 #pragma omp parallel for simd default(shared)
 		for(index i = 0; i < mat->browptr[mat->nbrows]; i++)
 			iluvals[i] = 0;
+		break;
 	case INIT_F_ORIGINAL:
 #pragma omp parallel for simd default(shared)
 		for(index i = 0; i < mat->browptr[mat->nbrows]; i++)
-- 
2.43.0


From f97cc99e97b8b711527eb6e5a3abbcbbabe2c273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:33 +0000
Subject: [PATCH 13/15] fix: the SGS-like initial guess of the scaled
 factorization scales by the column, not by a position

---
 src/async_ilu_factor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/async_ilu_factor.cpp b/src/async_ilu_factor.cpp
index ca7a3a7..d9f94ed 100644
--- a/src/async_ilu_factor.cpp
+++ b/src/async_ilu_factor.cpp
@@ -119,8 +119,8 @@ static void fact_init_sgs(const CRawBSRMatrix<scalar,index> *const mat, const sc
 				iluvals[j] = scale[i]*mat->vals[j]*scale[mat->bcolind[j]];
 			for(index j = mat->browptr[i]; j < mat->diagind[i]; j++)
 				iluvals[j] *= 1.0/(mat->vals[mat->diagind[mat->bcolind[j]]]
-				                   * scale[mat->diagind[mat->bcolind[j]]]
-				                   * scale[mat->diagind[mat->bcolind[j]]]);
+				                   * scale[mat->bcolind[j]]
+				                   * scale[mat->bcolind[j]]);
 		}
 	else
 #pragma omp parallel for default (shared)
-- 
2.43.0


From dc5d3ecff688baf3c5769611496fd090feade2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:17 +0000
Subject: [PATCH 14/15] fix: CSR matrix from coordinates marks rows without a
 diagonal entry (diagonal position was uninitialised)

---
 src/coomatrix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 4f6916b..1039c45 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -278,6 +278,7 @@ SRMatrixStorage<scalar,index> COOMatrix<scalar,index>::convertToCSR() const
 
 	for(index i=0; i < nrows; i++)
 	{
+		cmat.diagind[i] = -1;
 		for(index j = rowptr[i]; j < rowptr[i+1]; j++)
 		{
 			if(entries[j].colind == entries[j].rowind)
-- 
2.43.0


From b00848e6197fbf14abc7ae97e655b6fe18e75e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:15 +0000
Subject: [PATCH 15/15] fix: convertToBSR left the blocks of a block-row in
 order of first occurrence instead of sorted by block-column

---
 src/coomatrix.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 1039c45..d54908c 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -323,10 +323,6 @@ SRMatrixStorage<scalar,index> COOMatrix<scalar,index>::convertToBSR() const
 	bcolidxs.reserve(nnz/bs);
 	std::vector<bool> tallybrows(bmat.nbrows, false);
 
-	/** If nonzeros in each row were sorted by column initially, 
-	 * blocks in each block-row would end up sorted by block-column.
-	 */
-
 	for(index irow = 0; irow < nrows; irow++)
 	{
 		const index curbrow = irow/bs;
@@ -370,6 +366,15 @@ SRMatrixStorage<scalar,index> COOMatrix<scalar,index>::convertToBSR() const
 	for(index i = 0; i < bnnz; i++)
 		bmat.bcolind[i] = bcolidxs[i];
 
+	// blocks have been found in the order of the scalar rows, so sort each block-row by block-column
+	for(index i = 0; i < bmat.nbrows; i++)
+	{
+		std::sort(&bmat.bcolind[0] + bmat.browptr[i], &bmat.bcolind[0] + bmat.browptr[i+1]);
+		for(index jj = bmat.browptr[i]; jj < bmat.browptr[i+1]; jj++)
+			if(bmat.bcolind[jj] == i)
+				bmat.diagind[i] = jj;
+	}
+
 	// copy non-zero values
 	for(index irow = 0; irow < nrows; irow++)
 	{
-- 
2.43.0

