#include "drv.hpp"
#include <blas/matvecs.hpp>
#include <blockmatrices.hpp>
using namespace blasted;

template <typename S, typename I>
static SRMatrixStorage<S,I> wrap(Buf<int>& rp, Buf<int>& ci, Buf<double>& v, Buf<int>& di, const Mat& m)
{
	return SRMatrixStorage<S,I>(rp.p, ci.p, v.p, di.p, rp.p + 1, m.n, m.nnz(), m.nnz(), m.bs);
}

template <typename BL, typename S, typename I>
static void one(Rng& g, int bs, int stor)
{
	GenOpt o; o.diag = g.flip(); o.sorted = g.flip(); o.density = g.unit();
	Mat m = gen(g, dim(g, bs == 1 ? 0 : 1, 9), bs, stor, o);
	if(bs > 1 && m.nnz() == 0) return;
	g_case += " matvec " + m.desc();
	const int N = m.n * bs;
	Vec x = rvec(g, N), y0 = rvec(g, N);
	Buf<int> rp(m.rp), ci(m.ci), di(m.di); Buf<double> v(m.v), bx(x), by(y0), bz(rvec(g, N));
	Vec ax = matvec(m, x);
	BL::matrix_apply(wrap<S,I>(rp, ci, v, di, m), bx.p, bz.p);
	expect("matvec", bz.vec(), ax);
	double a = g.flip(0.1) ? 0 : g.val(), b = g.flip(0.2) ? 0 : g.val();
	Vec want(N); for(int i = 0; i < N; i++) want[i] = a * ax[i] + b * y0[i];
	Buf<double> bz2(rvec(g, N));
	BL::gemv3(wrap<S,I>(rp, ci, v, di, m), a, bx.p, b, by.p, bz2.p);
	expect("gemv3", bz2.vec(), want);
	// y and z may be the same vector
	BL::gemv3(wrap<S,I>(rp, ci, v, di, m), a, bx.p, b, by.p, by.p);
	expect("gemv3-inplace", by.vec(), want);
	expect("input-unchanged", bx.vec(), x);
	expect("matrix-unchanged", v.vec(), m.v);
	expect("rowptr-unchanged", rp.vec(), m.rp);
}

// the matrix and view classes
template <typename MV>
static void view(Rng& g, int bs, int stor)
{
	GenOpt o; o.diag = true; o.sorted = true; o.density = g.unit();
	Mat m = gen(g, dim(g, bs == 1 ? 0 : 1, 9), bs, stor, o);
	g_case += " view " + m.desc();
	const int N = m.n * bs;
	Vec x = rvec(g, N), y0 = rvec(g, N), ax = matvec(m, x), want(N);
	Buf<int> rp(m.rp), ci(m.ci), di(m.di); Buf<double> v(m.v), bx(x), by(y0), bz(rvec(g, N)), bz2(rvec(g, N));
	{
		MV A(m.n, rp.p, ci.p, v.p, di.p);
		expect_true("dim", A.dim() == N, std::to_string(A.dim()));
		A.apply(bx.p, bz.p);
		expect("view-apply", bz.vec(), ax);
		double a = g.val(), b = g.flip(0.2) ? 0 : g.val();
		for(int i = 0; i < N; i++) want[i] = a * ax[i] + b * y0[i];
		A.gemv3(a, bx.p, b, by.p, bz2.p);
		expect("view-gemv3", bz2.vec(), want);
		A.gemv3(a, bx.p, b, by.p, by.p);
		expect("view-gemv3-inplace", by.vec(), want);
	}
	expect("input-unchanged", bx.vec(), x);
	expect("matrix-unchanged", v.vec(), m.v);
}

static void onecase(Rng& g, long k)
{
	switch(k % 27) {
	case 0: one<BLAS_BSR<double,int,3,ColMajor>,double,int>(g, 3, 0); break;
	case 1: one<BLAS_BSR<double,int,4,ColMajor>,double,int>(g, 4, 0); break;
	case 2: one<BLAS_BSR<double,int,5,ColMajor>,double,int>(g, 5, 0); break;
	case 3: one<BLAS_BSR<double,int,7,ColMajor>,double,int>(g, 7, 0); break;
	case 4: one<BLAS_BSR<double,int,3,RowMajor>,double,int>(g, 3, 1); break;
	case 5: one<BLAS_BSR<double,int,4,RowMajor>,double,int>(g, 4, 1); break;
	case 6: one<BLAS_BSR<double,int,7,RowMajor>,double,int>(g, 7, 1); break;
	case 7: one<BLAS_CSR<double,int>,double,int>(g, 1, 0); break;
	case 8: one<BLAS_BSR<const double,const int,3,ColMajor>,const double,const int>(g, 3, 0); break;
	case 9: one<BLAS_BSR<const double,const int,4,ColMajor>,const double,const int>(g, 4, 0); break;
	case 10: one<BLAS_BSR<const double,const int,5,ColMajor>,const double,const int>(g, 5, 0); break;
	case 11: one<BLAS_BSR<const double,const int,7,ColMajor>,const double,const int>(g, 7, 0); break;
	case 12: one<BLAS_BSR<const double,const int,3,RowMajor>,const double,const int>(g, 3, 1); break;
	case 13: one<BLAS_BSR<const double,const int,4,RowMajor>,const double,const int>(g, 4, 1); break;
	case 14: one<BLAS_BSR<const double,const int,7,RowMajor>,const double,const int>(g, 7, 1); break;
	case 15: one<BLAS_CSR<const double,const int>,const double,const int>(g, 1, 0); break;
	case 16: view<BSRMatrixView<double,int,3,RowMajor>>(g, 3, 1); break;
	case 17: view<BSRMatrixView<double,int,4,RowMajor>>(g, 4, 1); break;
	case 18: view<BSRMatrixView<double,int,7,RowMajor>>(g, 7, 1); break;
	case 19: view<BSRMatrixView<double,int,3,ColMajor>>(g, 3, 0); break;
	case 20: view<BSRMatrixView<double,int,4,ColMajor>>(g, 4, 0); break;
	case 21: view<BSRMatrixView<double,int,5,ColMajor>>(g, 5, 0); break;
	case 22: view<BSRMatrixView<double,int,7,ColMajor>>(g, 7, 0); break;
	case 23: view<BSRMatrix<double,int,3>>(g, 3, 1); break;
	case 24: view<BSRMatrix<double,int,7>>(g, 7, 1); break;
	case 25: view<BSRMatrix<double,int,1>>(g, 1, 1); break;
	case 26: view<CSRMatrixView<double,int>>(g, 1, 1); break;
	}
}
DRIVER_MAIN(onecase)
