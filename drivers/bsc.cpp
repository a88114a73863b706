// Row-to-column conversion (zero- and one-based), products with column storage, column Gauss-Seidel.
#include "drv.hpp"
#include <scmatrixdefs.hpp>
#include <blas/matvecs.hpp>
#include <solverops_sgs.hpp>
// the definition in src/blas/matvecs.cpp (its declaration in the header has a different argument type, which nothing defines)
namespace blasted { template <typename scalar, typename index, int bs, StorageOptions stor>
void bcsc_gemv3(const CRawBSCMatrix<scalar,index> *const mat, const scalar a, const scalar *const __restrict xx, const scalar b, const scalar *const yy, scalar *const zz); }
using namespace blasted;

template <int bs> static Mat columns(const Mat& m, IVec& dg)   // rp: column pointers, ci: rows
{
	Mat t; t.n = m.n; t.bs = bs; t.stor = m.stor; t.rp.assign(1, 0); dg.assign(m.n, -1);
	for(int c = 0; c < m.n; c++) {
		for(int i = 0; i < m.n; i++) for(int j = m.rp[i]; j < m.rp[i+1]; j++) if(m.ci[j] == c) { if(i == c) dg[c] = (int)t.ci.size(); t.ci.push_back(i); t.v.insert(t.v.end(), m.v.begin() + j*bs*bs, m.v.begin() + (j+1)*bs*bs); }
		t.rp.push_back((int)t.ci.size());
	}
	return t;
}
template <int bs, StorageOptions st> struct G { static void run(const CRawBSCMatrix<double,int> *c, double a, const double *x, double b, const double *y, double *z) { bcsc_gemv3<double,int,bs,st>(c, a, x, b, y, z); } };
template <int bs, StorageOptions st> struct NoG { static void run(const CRawBSCMatrix<double,int> *, double, const double *, double, const double *, double *) { } };

template <int bs, StorageOptions st, class Gemv> static void one(Rng& g, bool gemv)
{
	GenOpt o; o.density = g.unit(); o.diag = g.flip(0.4); o.sorted = g.flip(0.6);
	const Mat m = gen(g, g.flip(0.1) ? g.range(0, 1) : dim(g, 1, 11), bs, st == RowMajor, o);
	const int n = m.n, nz = m.nnz();
	Buf<int> rp(m.rp), ci(m.ci), di(m.di); Buf<double> v(m.v);
	CRawBSRMatrix<double,int> raw; raw.browptr = rp.p; raw.bcolind = ci.p; raw.vals = v.p; raw.diagind = di.p; raw.browendptr = rp.p + 1; raw.nbrows = n; raw.nnzb = raw.nbstored = nz;
	g_case += " " + m.desc();
	IVec dg; const Mat t = columns<bs>(m, dg);
	CRawBSCMatrix<double,int> c;
	convert_BSR_to_BSC<double,int,bs>(&raw, &c);
	auto look = [&](const std::string& w, int base) {
		auto sh = [&](IVec a) { for(auto& e : a) e += base; return a; };
		expect_true(w + "-size", c.nbcols == n);
		expect(w + "-pointers", IVec(c.bcolptr, c.bcolptr + n + 1), sh(t.rp)); expect(w + "-rows", IVec(c.browind, c.browind + nz), sh(t.ci));
		expect(w + "-diagonal", IVec(c.diagind, c.diagind + n), sh(dg)); expect(w + "-blocks", Vec(c.vals, c.vals + nz*bs*bs), t.v, 0);
	};
	look("columns", 0);
	if(gemv && (nz > 0 || bs == 1)) {
		const Vec x = rvec(g, n*bs), y = rvec(g, n*bs); const double a = g.flip(0.2) ? 0 : g.val(), b = g.flip(0.2) ? 0 : g.val();
		Buf<double> X(x), Y(y), Z(rvec(g, n*bs));
		{ std::ostringstream s; s << " a=" << a << " b=" << b << " x=" << str(x) << " y=" << str(y); g_case += s.str(); }
		const bool inplace = g.flip(0.3);
		Gemv::run(&c, a, X.p, b, inplace ? Y.p : Y.p, inplace ? Y.p : Z.p);
		Vec w = matvec(m, x); for(int i = 0; i < n*bs; i++) w[i] = a * w[i] + b * y[i];
		expect("product", inplace ? Y.vec() : Z.vec(), w); expect("argument-kept", X.vec(), x, 0); if(!inplace) expect("argument-kept", Y.vec(), y, 0);
		look("columns-kept", 0);
	}
	alignedDestroyCRawBSCMatrix<double,int>(c);
	if(bs == 1) { c = convert_BSR_to_BSC_1based<double,int,1>(&raw); look("one-based", 1); alignedDestroyCRawBSCMatrix<double,int>(c); }
	expect("matrix-kept", v.vec(), m.v, 0); expect("structure-kept", rp.vec(), m.rp); expect("structure-kept", ci.vec(), m.ci); expect("structure-kept", di.vec(), m.di);
}

static void bgs(Rng& g)
{
	GenOpt o; o.density = g.unit(); o.dominant = true;
	Mat m = gen(g, dim(g, 1, 11), 1, 0, o); const int n = m.n;
	Buf<int> rp(m.rp), ci(m.ci), di(m.di); Buf<double> v(m.v);
	const int ns = g.range(1, 3);
	CSC_BGS_Preconditioner<double,int> p(SRMatrixStorage<const double,const int>(rp.p, ci.p, v.p, di.p, rp.p + 1, n, m.nnz(), m.nnz(), 1), ns, 3);
	const int rounds = g.range(1, 2);
	for(int q = 0; q < rounds; q++) {
		if(q) for(int j = 0; j < m.nnz(); j++) { m.v[j] *= 1 + g.unit(); v.p[j] = m.v[j]; }
		p.compute();
		const Vec r = rvec(g, n); Buf<double> R(r), Z(rvec(g, n));
		g_case += " columnwise-backward-sweep r=" + str(r) + " sweeps=" + std::to_string(ns) + " " + m.desc();
		p.apply(R.p, Z.p);
		if(omp_get_max_threads() > 1) continue;
		Vec z(n, 0.0);
		for(int i = n-1; i >= 0; i--) { double s = r[i]; for(int j = m.di[i]+1; j < m.rp[i+1]; j++) s -= m.v[j] * z[m.ci[j]]; z[i] = s / m.v[m.di[i]]; }
		expect("columnwise-backward-sweep", Z.vec(), z); expect("argument-kept", R.vec(), r, 0);
	}
}
static void onecase(Rng& g, long k)
{
	switch(k % 7) {
	case 0: one<1,ColMajor,NoG<1,ColMajor>>(g, false); break;
	case 1: one<3,ColMajor,G<3,ColMajor>>(g, true); break;
	case 2: one<4,ColMajor,G<4,ColMajor>>(g, true); break;
	case 3: one<5,ColMajor,NoG<5,ColMajor>>(g, false); break;
	case 4: one<7,RowMajor,G<7,RowMajor>>(g, true); break;
	default: bgs(g); break;
	}
}
DRIVER_MAIN(onecase)
