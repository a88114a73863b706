#include "drv.hpp"
#include <srmatrixdefs.hpp>
using namespace blasted;

static const double *P(const ArrayView<const double>& a) { return a.size() ? &a[0] : nullptr; }

template <int bs>
static void one(Rng& g)
{
	GenOpt o; o.dominant = false; o.density = g.unit();
	Mat m = gen(g, dim(g, 1, 9), bs, 0, o);
	for(int i = 0; i < m.n; i++) for(int k = 0; k < bs; k++) m.el(m.di[i], k, k) = 0.1 + g.unit() * 5;
	g_case += " views " + m.desc();
	// a non-compact variant: separate arrays of row ends and unused slots between the rows
	const bool compact = g.flip();
	const Gapped G = gapped(g, m, !compact);
	const int st = (int)G.ci.size();
	if(!compact) g_case += " row-starts=" + str(G.rp) + " row-ends=" + str(G.en);
	Buf<int> rp(G.rp), ci(G.ci), di(G.di), end(G.en); Buf<double> v(G.v);
	CRawBSRMatrix<double,int> A(rp.p, ci.p, v.p, di.p, compact ? rp.p + 1 : end.p, m.n, m.nnz(), st);

	for(int up = 0; up < 2; up++) {
		CRawBSRMatrix<double,int> T = up ? getUpperTriangularView(A) : getLowerTriangularView(A);
		expect_true("tri-sizes", T.nbrows == m.n && T.nbstored == st);
		expect_true("tri-shared", T.vals == v.p && T.bcolind == ci.p && T.diagind == di.p);
		int cnt = 0;
		for(int i = 0; i < m.n; i++) {
			IVec got, want;
			for(int j = T.browptr[i]; j < T.browendptr[i]; j++) got.push_back(j);
			for(int j = m.rp[i]; j < m.rp[i+1]; j++) if(up ? m.ci[j] >= i : m.ci[j] <= i) want.push_back(G.pos[j]);
			expect(up ? "upper-row" : "lower-row", got, want); cnt += want.size();
		}
		expect_true("tri-count", T.nnzb == cnt);
		alignedDestroyRawBSRMatrixTriangularView(reinterpret_cast<RawBSRMatrix<double,int>&>(T));
		SRMatrixStorage<const double,const int> S(rp.p, ci.p, v.p, di.p, compact ? rp.p + 1 : end.p, m.n, m.nnz(), st, bs);
		{
			SRMatrixStorage<const double,const int> V = up ? getUpperTriangularView(std::move(S)) : getLowerTriangularView(std::move(S));
			expect_true("trist-sizes", V.nbrows == m.n && V.nbstored == st && V.nnzb == cnt);
			expect_true("trist-shared", &V.vals[0] == v.p && &V.bcolind[0] == ci.p && &V.diagind[0] == di.p);
			expect_true("trist-lens", V.vals.size() == st*bs*bs && V.bcolind.size() == st && V.diagind.size() == m.n && V.browptr.size() >= m.n && V.browendptr.size() == m.n);
			for(int i = 0; i < m.n; i++) {
				IVec got, want;
				for(int j = V.browptr[i]; j < V.browendptr[i]; j++) got.push_back(j);
				for(int j = m.rp[i]; j < m.rp[i+1]; j++) if(up ? m.ci[j] >= i : m.ci[j] <= i) want.push_back(G.pos[j]);
				expect(up ? "upper-row-st" : "lower-row-st", got, want);
			}
			SRMatrixStorage<const double,const int> S2(rp.p, ci.p, v.p, di.p, compact ? rp.p + 1 : end.p, m.n, m.nnz(), st, bs);
			CRawBSRMatrix<double,int> R = createRawView(std::move(S2));
			expect_true("rawview", R.vals == v.p && R.bcolind == ci.p && R.diagind == di.p && R.browptr == rp.p && R.browendptr == (compact ? rp.p+1 : end.p)
			            && R.nbrows == m.n && R.nnzb == m.nnz() && R.nbstored == st);
		}
	}
	{
		SRMatrixStorage<double,int> S(rp.p, ci.p, v.p, di.p, compact ? rp.p + 1 : end.p, m.n, m.nnz(), st, bs);
		auto C = share_with_const<double,int>(S, bs);
		expect_true("share", &C.vals[0] == v.p && &C.bcolind[0] == ci.p && &C.diagind[0] == di.p && &C.browptr[0] == rp.p
		            && C.browptr.size() == m.n+1 && C.vals.size() == st*bs*bs && C.nbrows == m.n && C.nnzb == m.nnz() && C.nbstored == st);
		expect_true("share-orig", S.nbrows == m.n && &S.vals[0] == v.p && S.vals.size() == st*bs*bs);
	}
	Vec sc(m.n * bs), want(m.n * bs); Buf<double> bsc(sc);
	for(int i = 0; i < m.n; i++) for(int k = 0; k < bs; k++) want[i*bs+k] = 1.0 / std::sqrt(m.el(m.di[i], k, k));
	getScalingVector<double,int,bs>(&A, bsc.p);
	expect("scaling-vector", bsc.vec(), want);
	if(compact) {
		RawBSRMatrix<double,int> C = copyRawBSRMatrix<double,int,bs>(A);
		expect_true("copy-sizes", C.nbrows == m.n && C.nnzb == m.nnz() && C.nbstored == st);
		expect("copy-rp", IVec(C.browptr, C.browptr + m.n + 1), m.rp);
		expect("copy-ci", IVec(C.bcolind, C.bcolind + m.nnz()), m.ci);
		expect("copy-di", IVec(C.diagind, C.diagind + m.n), m.di);
		expect("copy-v", Vec(C.vals, C.vals + m.nnz()*bs*bs), m.v);
		expect("copy-end", IVec(C.browendptr, C.browendptr + m.n), G.en);
		expect_true("copy-fresh", C.vals != v.p && C.browptr != rp.p && C.bcolind != ci.p && C.diagind != di.p);
		alignedDestroyRawBSRMatrix(C);
	}
	expect("input-rp", rp.vec(), G.rp); expect("input-ci", ci.vec(), G.ci); expect("input-v", v.vec(), G.v); expect("input-di", di.vec(), G.di);
}
static void onecase(Rng& g, long k) { switch(k % 3) { case 0: one<1>(g); break; case 1: one<4>(g); break; default: one<5>(g); } }
DRIVER_MAIN(onecase)
