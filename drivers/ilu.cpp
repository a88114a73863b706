// Incomplete factorization: exact factors after one sequential sweep from any start, requested guesses, residuals, scaling.
#include "drv.hpp"
#include <solverops_ilu0.hpp>
#include <async_ilu_factor.hpp>
#include <async_blockilu_factor.hpp>
#include <ilu_pattern.hpp>
using namespace blasted;
#ifndef WHICH
#define WHICH 3
#endif

struct Sc : AsyncILU0_SRPreconditioner<double,int> {
	Sc(SRMatrixStorage<const double,const int>&& m, int ns, bool us, FactInit fi, bool info, bool thr)
		: AsyncILU0_SRPreconditioner<double,int>(std::move(m), ns, 1, us, 3, fi, INIT_A_ZERO, info, thr, false) { }
	double *il() { return iluvals; } double *sc() { return scale; }
};
template <int bs, StorageOptions st> struct Bl : AsyncBlockILU0_SRPreconditioner<double,int,bs,st> {
	Bl(SRMatrixStorage<const double,const int>&& m, int ns, bool us, FactInit fi, bool info, bool thr)
		: AsyncBlockILU0_SRPreconditioner<double,int,bs,st>(std::move(m), ns, 1, us, 3, fi, INIT_A_ZERO, thr, false, info) { }
	double *il() { return this->iluvals; } double *sc() { return this->scale; }
};

static Dense blk(const Mat& m, int j) { Dense d(m.bs, Vec(m.bs)); for(int a = 0; a < m.bs; a++) for(int b = 0; b < m.bs; b++) d[a][b] = m.el(j, a, b); return d; }
static void put(Mat& m, int j, const Dense& d) { for(int a = 0; a < m.bs; a++) for(int b = 0; b < m.bs; b++) m.el(j, a, b) = d[a][b]; }
static void sub(Dense& a, const Dense& b) { for(size_t i = 0; i < a.size(); i++) for(size_t j = 0; j < a.size(); j++) a[i][j] -= b[i][j]; }
static int find(const Mat& m, int i, int c) { for(int j = m.rp[i]; j < m.rp[i+1]; j++) if(m.ci[j] == c) return j; return -1; }

// incomplete LU on the pattern of m (upper diagonal blocks not inverted)
static Mat ilu0(const Mat& m)
{
	Mat F = m;
	for(int i = 0; i < m.n; i++) for(int j = m.rp[i]; j < m.rp[i+1]; j++) {
		const int c = m.ci[j]; Dense s = blk(m, j);
		for(int k = m.rp[i]; k < m.rp[i+1]; k++) { const int q = m.ci[k]; if(q >= i || q >= c) continue; const int u = find(m, q, c); if(u >= 0) sub(s, dmul(blk(F, k), blk(F, u))); }
		if(c < i) s = dmul(s, dinv(blk(F, m.di[c])));
		put(F, j, s);
	}
	return F;
}
// sum of magnitudes of A - L U over the stored positions
static double mismatch(const Mat& A, const Mat& F)
{
	double t = 0;
	for(int i = 0; i < A.n; i++) for(int j = A.rp[i]; j < A.rp[i+1]; j++) {
		const int c = A.ci[j]; Dense s = blk(A, j);
		for(int k = A.rp[i]; k < A.rp[i+1]; k++) { const int q = A.ci[k]; if(q >= i || q >= c) continue; const int u = find(A, q, c); if(u >= 0) sub(s, dmul(blk(F, k), blk(F, u))); }
		sub(s, c < i ? dmul(blk(F, j), blk(F, A.di[c])) : blk(F, j));
		for(auto& r : s) for(double x : r) t += std::fabs(x);
	}
	return t;
}

static Mat scaledm(const Mat& m, const Vec& s)
{
	Mat r = m;
	for(int i = 0; i < m.n; i++) for(int j = m.rp[i]; j < m.rp[i+1]; j++) for(int a = 0; a < m.bs; a++) for(int b = 0; b < m.bs; b++) r.el(j, a, b) *= s[i*m.bs+a] * s[m.ci[j]*m.bs+b];
	return r;
}

template <int bs, StorageOptions st> struct Factorize {
	static void run(const CRawBSRMatrix<double,int> *m, const ILUPositions<int>& pl, int ns, bool thr, FactInit fi, bool info, double *il, double *sc, PrecInfo& pi)
	{ pi = block_ilu0_factorize<double,int,bs,st>(m, pl, ns, 3, thr, fi, info, il, sc); }
};
template <StorageOptions st> struct Factorize<1,st> {
	static void run(const CRawBSRMatrix<double,int> *m, const ILUPositions<int>& pl, int ns, bool thr, FactInit fi, bool info, double *il, double *sc, PrecInfo& pi)
	{ pi = scalar_ilu0_factorize<double,int>(m, pl, ns, 3, thr, fi, info, il, sc); }
};

template <class Op, int bs, StorageOptions st>
static void one(Rng& g)
{
	GenOpt o; o.density = g.unit(); o.dominant = true;
	Mat m = gen(g, dim(g, 1, 10), bs, st == RowMajor, o);
	const bool us = g.flip();
	const int ns = g.flip(0.3) ? 0 : g.range(1, 3);
	const bool thr = omp_get_max_threads() == 1 ? g.flip() : false, info = g.flip(0.6);
	const FactInit fi = (FactInit)g.below(4);
	auto prep = [&](Mat& a) { if(us) for(int i = 0; i < a.n; i++) for(int k = 0; k < bs; k++) a.el(a.di[i], k, k) = std::fabs(a.el(a.di[i], k, k)); };
	prep(m);
	const int N = m.n * bs, nz = m.nnz();
	Buf<int> rp(m.rp), ci(m.ci), di(m.di); Buf<double> v(m.v);
	const int mode = g.below(3);
	{ std::ostringstream s; s << " scaled=" << us << " sweeps=" << ns << " init=" << fi << " info=" << info << " threadedflag=" << thr << " mode=" << mode << " " << m.desc(); g_case += s.str(); }
	auto guess = [&](const Mat& A, const Vec& before) {
		Mat G = A;
		if(fi == INIT_F_ZERO) G.v.assign(G.v.size(), 0.0);
		if(fi == INIT_F_NONE) G.v = before;
		if(fi == INIT_F_SGS) for(int i = 0; i < A.n; i++) for(int j = A.rp[i]; j < A.rp[i+1]; j++) if(A.ci[j] < i) put(G, j, dmul(blk(A, j), dinv(blk(A, A.di[A.ci[j]]))));
		return G;
	};
	auto check = [&](const char *what, const Mat& a, const Vec& before, Vec got, const Vec& sgot, const PrecInfo *pi) {
		Vec s(N, 1.0);
		if(us) { for(int i = 0; i < a.n; i++) for(int k = 0; k < bs; k++) s[i*bs+k] = 1.0 / std::sqrt(a.el(a.di[i], k, k)); expect(std::string(what) + "-scale", sgot, s); }
		const Mat A = us ? scaledm(a, s) : a;
		const Mat G = guess(A, before);
		Mat F = ns > 0 ? ilu0(A) : G;
		if(pi) {
			expect(std::string(what) + "-initial-residual", pi->prec_rem_initial_norm(), mismatch(A, G), 1e-7);
			expect(std::string(what) + "-residual", pi->prec_remainder_norm(), mismatch(A, F), 1e-7);
		}
		if(bs > 1) for(int i = 0; i < a.n; i++) {
			if(fi == INIT_F_ZERO && ns == 0) { for(int k = 0; k < bs*bs; k++) got[F.di[i]*bs*bs+k] = 0; continue; }   // the inverse of a zero block is not looked at
			put(F, F.di[i], dinv(blk(F, F.di[i])));
		}
		expect(std::string(what) + (ns > 0 ? "-factors" : "-initial-guess"), got, F.v, 1e-7);
	};
	if(mode == 0) {   // the free functions: arbitrary contents before
		Vec b0 = rvec(g, nz * bs * bs); for(int i = 0; i < m.n; i++) for(int k = 0; k < bs; k++) b0[m.di[i]*bs*bs + k*bs + k] += 3;
		Buf<double> il(b0), sc(Vec(N, 7.0));
		SRMatrixStorage<const double,const int> sm(rp.p, ci.p, v.p, di.p, rp.p + 1, m.n, nz, nz, bs);
		CRawBSRMatrix<double,int> raw; raw.browptr = rp.p; raw.bcolind = ci.p; raw.vals = v.p; raw.diagind = di.p; raw.browendptr = rp.p + 1; raw.nbrows = m.n; raw.nnzb = nz; raw.nbstored = nz;
		const ILUPositions<int> pl = compute_ILU_positions_CSR_CSR(&raw);
		PrecInfo pi;
		Factorize<bs,st>::run(&raw, pl, ns, thr, fi, info, il.p, us ? sc.p : nullptr, pi);
		check("factorize", m, b0, il.vec(), sc.vec(), info ? &pi : nullptr);
		if(bs == 1 && !us) {
			Buf<double> il2(b0);
			scalar_ilu0_factorize_noscale<double,int>(&raw, pl, ns, 3, thr, fi, il2.p);
			check("noscale", m, b0, il2.vec(), Vec(), nullptr);
		}
	} else {
		Op op(SRMatrixStorage<const double,const int>(rp.p, ci.p, v.p, di.p, rp.p + 1, m.n, nz, nz, bs), ns, us, fi, info, thr);
		PrecInfo pi = op.compute();
		auto cur = [&](int n, double *p) { return p ? Vec(p, p + n) : Vec(); };
		check("compute", m, m.v, cur(nz*bs*bs, op.il()), cur(N, op.sc()), info ? &pi : nullptr);
		if(mode == 2) {   // new values, same structure: the factorization is that of the new matrix
			Mat w = gen(g, 1, bs, st == RowMajor, o); w = m; for(auto& x : w.v) x = g.val() * 0.2; for(int i = 0; i < m.n; i++) for(int k = 0; k < bs; k++) w.el(m.di[i], k, k) = 4 + g.unit() + m.n * bs * 0.1; prep(w);
			Vec before = cur(nz*bs*bs, op.il());
			for(int k = 0; k < v.n; k++) v.p[k] = w.v[k];
			pi = op.compute();
			g_case += " then values " + str(w.v);
			if(fi != INIT_F_ZERO || ns > 0 || bs == 1) check("recompute", w, before, cur(nz*bs*bs, op.il()), cur(N, op.sc()), info ? &pi : nullptr);
			m = w;
		}
	}
	expect("matrix-kept", v.vec(), m.v, 0);
	expect("structure-kept", rp.vec(), m.rp); expect("structure-kept", ci.vec(), m.ci); expect("structure-kept", di.vec(), m.di);
}

static void onecase(Rng& g, long k)
{
	switch(WHICH == 1 ? 0 : WHICH == 2 ? 1 + k % 3 : k % 4) {
	case 0: one<Sc,1,ColMajor>(g); break;
	case 1: one<Bl<4,ColMajor>,4,ColMajor>(g); break;
	case 2: one<Bl<5,ColMajor>,5,ColMajor>(g); break;
	case 3: one<Bl<4,RowMajor>,4,RowMajor>(g); break;
	}
}
DRIVER_MAIN(onecase)
