#include "drv.hpp"
#include <solverops_levels_sgs.hpp>
#include <solverops_levels_ilu0.hpp>
using namespace blasted;
typedef SRMatrixStorage<const double,const int> Stor;

struct Sc : Async_Level_ILU0<double,int> {
	using Async_Level_ILU0<double,int>::Async_Level_ILU0;
	const double *il() { return iluvals; }
	const double *sc() { return usescaling ? scale : nullptr; }
};
template <int bs, StorageOptions st> struct Bl : Async_Level_BlockILU0<double,int,bs,st> {
	using Async_Level_BlockILU0<double,int,bs,st>::Async_Level_BlockILU0;
	const double *il() { return this->iluvals; }
	const double *sc() { return this->usescaling ? this->scale : nullptr; }
};
template <int bs, StorageOptions st> struct Types { typedef Bl<bs,st> F; typedef Level_BSGS<double,int,bs,st> G; };
template <StorageOptions st> struct Types<1,st> { typedef Sc F; typedef Level_SGS<double,int> G; };

template <int bs, StorageOptions st>
static void one(Rng& g, int stor, bool ilu)
{
	typedef Types<bs,st> T;
	GenOpt o; o.density = g.unit() * g.unit(); o.symm = true; o.dominant = true;
	Mat m = gen(g, dim(g, 1, 14), bs, stor, o);
	if(ilu) for(int i = 0; i < m.n; i++) for(int a = 0; a < bs; a++) m.el(m.di[i],a,a) = std::fabs(m.el(m.di[i],a,a));
	const int n = m.n, N = n * bs;
	Vec b = rvec(g, N), x0 = rvec(g, N);
	SolveParams<double> sp; sp.rtol = 0; sp.atol = 0; sp.dtol = 1e30; sp.ctol = g.flip(); sp.maxits = g.range(0, 4);
	const bool us = g.flip(), thr = g.flip();
	const int nb = g.range(1, 3); const FactInit fi = INIT_F_ORIGINAL;
	{ std::ostringstream s; s << (ilu ? " ilu" : " sgs") << " threads=" << omp_get_max_threads() << " scaled=" << us << " maxits=" << sp.maxits << " " << m.desc() << " b=" << str(b); g_case += s.str(); }
	Buf<int> rp(m.rp), ci(m.ci), di(m.di); Buf<double> v(m.v), bb(b), z(x0);
	auto view = [&]() { return Stor(rp.p, ci.p, v.p, di.p, rp.p+1, n, m.nnz(), m.nnz(), bs); };
	auto kept = [&]() { expect("rhs-kept", bb.vec(), b, 0); expect("matrix-kept", v.vec(), m.v, 0); };
	if(!ilu) {
		typename T::G op(view());
		expect_true("dim", op.dim() == N);
		op.setApplyParams(sp);
		for(int rep = 0; rep < 2; rep++) {
			op.compute();
			auto A = m.dense(); Dense L(N, Vec(N, 0)), U = L, D = L;
			for(int i = 0; i < N; i++) for(int j = 0; j < N; j++) { int bi = i/bs, bj = j/bs;
				if(bj <= bi) L[i][j] = A[i][j]; if(bj >= bi) U[i][j] = A[i][j]; if(bi == bj) D[i][j] = A[i][j]; }
			for(auto& q : std::vector<int>{0, 1}) { (void)q;
				for(int i = 0; i < N; i++) z[i] = q ? NAN : x0[i];
				op.apply(bb.p, z.p);
				expect("level-sgs-apply", z.vec(), dsolve(U, dapply(D, dsolve(L, b))), 1e-7); kept(); }
			if(op.relaxationAvailable()) {
				for(int i = 0; i < N; i++) z[i] = x0[i];
				op.apply_relax(bb.p, z.p);
				Vec x = x0;
				auto row = [&](int i) { Vec t(bs); Dense d(bs, Vec(bs));
					for(int a = 0; a < bs; a++) { double s = b[i*bs+a]; for(int j = 0; j < N; j++) if(j/bs != i) s -= A[i*bs+a][j] * x[j]; t[a] = s; for(int c = 0; c < bs; c++) d[a][c] = A[i*bs+a][i*bs+c]; }
					Vec r = dsolve(d, t); for(int a = 0; a < bs; a++) x[i*bs+a] = r[a]; };
				for(int s = 0; s < sp.maxits; s++) { for(int i = 0; i < n; i++) row(i); for(int i = n-1; i >= 0; i--) row(i); }
				expect("level-sgs-relaxation", z.vec(), x, 1e-7); kept();
			}
			for(auto& q : m.v) q *= (g.flip(0.1) ? 1.1 : 1.0); for(int k = 0; k < v.n; k++) v[k] = m.v[k];
		}
		return;
	}
	typename T::F op(view(), nb, us, 2, fi, thr, false);
	expect_true("dim", op.dim() == N);
	for(int rep = 0; rep < 2; rep++) {
		op.compute();
		Mat F = m; const double *il = op.il(), *s = op.sc();
		for(size_t k = 0; k < F.v.size(); k++) F.v[k] = il[k];
		Vec y(N), x(N);
		for(int i = 0; i < N; i++) y[i] = (us ? s[i] : 1) * b[i];
		for(int i = 0; i < n; i++) for(int j = m.rp[i]; j < m.rp[i+1]; j++) if(m.ci[j] < i)
			for(int a = 0; a < bs; a++) for(int c = 0; c < bs; c++) y[i*bs+a] -= F.el(j,a,c) * y[m.ci[j]*bs+c];
		for(int i = n-1; i >= 0; i--) {
			Vec t(y.begin() + i*bs, y.begin() + (i+1)*bs);
			for(int j = m.rp[i]; j < m.rp[i+1]; j++) if(m.ci[j] > i)
				for(int a = 0; a < bs; a++) for(int c = 0; c < bs; c++) t[a] -= F.el(j,a,c) * x[m.ci[j]*bs+c];
			for(int a = 0; a < bs; a++) {
				if(bs == 1) x[i] = t[0] / F.el(m.di[i],0,0);
				else { double q = 0; for(int c = 0; c < bs; c++) q += F.el(m.di[i],a,c) * t[c]; x[i*bs+a] = q; }
			}
		}
		if(us) for(int i = 0; i < N; i++) x[i] *= s[i];
		for(auto& q : std::vector<int>{0, 1}) {
			for(int i = 0; i < N; i++) z[i] = q ? NAN : x0[i];
			op.apply(bb.p, z.p);
			expect("level-ilu-apply", z.vec(), x, 1e-7); kept();
			expect("factors-kept", Vec(il, il + F.v.size()), F.v, 0);
		}
		for(auto& q : m.v) q *= (g.flip(0.1) ? 1.1 : 1.0); for(int k = 0; k < v.n; k++) v[k] = m.v[k];
	}
}
static void onecase(Rng& g, long k)
{
	const bool ilu = (k / 4) % 2;
	switch(k % 4) {
	case 0: one<1,ColMajor>(g, 0, ilu); break;
	case 1: one<4,ColMajor>(g, 0, ilu); break;
	case 2: one<5,ColMajor>(g, 0, ilu); break;
	case 3: one<4,RowMajor>(g, 1, ilu); break;
	}
}
DRIVER_MAIN(onecase)
