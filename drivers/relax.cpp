#include "drv.hpp"
#include <solverops_jacobi.hpp>
#include <solverops_sgs.hpp>
#include <relaxation_chaotic.hpp>
using namespace blasted;
#ifndef WHICH
#define WHICH 3
#endif

typedef SRMatrixStorage<const double,const int> Stor;

template <int bs, StorageOptions st> struct Types {
	typedef BJacobiSRPreconditioner<double,int,bs,st> J;
	typedef AsyncBlockSGS_SRPreconditioner<double,int,bs,st> S;
	typedef ChaoticBlockRelaxation<double,int,bs,st> C;
};
template <StorageOptions st> struct Types<1,st> {
	typedef JacobiSRPreconditioner<double,int> J;
	typedef AsyncSGS_SRPreconditioner<double,int> S;
	typedef ChaoticRelaxation<double,int> C;
};

struct Problem { Mat m; Vec x, b; std::vector<Dense> di; };

static void rowupdate(const Problem& p, const Vec& from, Vec& to, int i)
{
	const int bs = p.m.bs;
	Vec t(p.b.begin() + i*bs, p.b.begin() + (i+1)*bs);
	for(int j = p.m.rp[i]; j < p.m.rp[i+1]; j++) if(p.m.ci[j] != i)
		for(int a = 0; a < bs; a++) for(int c = 0; c < bs; c++) t[a] -= p.m.el(j,a,c) * from[p.m.ci[j]*bs+c];
	Vec r = dapply(p.di[i], t);
	for(int a = 0; a < bs; a++) to[i*bs+a] = r[a];
}

// 0: tolerance decision too close to call
static int stops(double d, double ref, const SolveParams<double>& s)
{
	auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-7 * (std::fabs(a) + std::fabs(b)); };
	if(near(d, s.atol) || near(d/ref, s.rtol) || near(d/ref, s.dtol)) return 0;
	return (d < s.atol || d/ref < s.rtol || d/ref > s.dtol) ? 1 : -1;
}

template <int bs, StorageOptions st>
static void one(Rng& g, int stor)
{
	typedef Types<bs,st> T;
	Problem p;
	const int which = WHICH == 1 ? 1 : (WHICH == 2 ? (g.flip() ? 0 : 2) : g.below(3));
	GenOpt o; o.density = g.unit(); o.dominant = g.flip(0.7); o.sorted = which == 1 || g.flip(0.6);
	p.m = gen(g, dim(g, 1, 9), bs, stor, o);
	if(!o.dominant) for(auto& x : p.m.v) x *= 0.4;
	Mat& m = p.m; const int N = m.n*bs;
	if(!o.dominant) for(int i = 0; i < m.n; i++) for(int k = 0; k < bs; k++) m.el(m.di[i],k,k) = (g.flip() ? -1 : 1) * (1 + g.unit());
	p.x = rvec(g, N); p.b = rvec(g, N);
	for(int i = 0; i < m.n; i++) { Dense d(bs, Vec(bs)); for(int a = 0; a < bs; a++) for(int c = 0; c < bs; c++) d[a][c] = m.el(m.di[i],a,c); p.di.push_back(dinv(d)); }
	const int ns = g.range(which == 1 ? 1 : 0, 3);
	const ApplyInit ai = (ApplyInit)g.below(3);
	SolveParams<double> sp; sp.maxits = g.range(0, 5); sp.ctol = g.flip();
	sp.rtol = g.flip() ? 0 : g.unit(); sp.atol = g.flip() ? 0 : g.unit()*g.unit(); sp.dtol = g.flip(0.7) ? 1e30 : 1 + g.unit()*0.2;
	if(g.flip(0.1)) sp.dtol = 0.5;
	{ std::ostringstream s; s << " op=" << which << " threads=" << omp_get_max_threads() << " sweeps=" << ns << " init=" << ai << " maxits=" << sp.maxits << " ctol=" << sp.ctol << " tol=" << sp.rtol << "," << sp.atol << "," << sp.dtol
		<< " " << m.desc() << " b=" << str(p.b) << " x=" << str(p.x); g_case += s.str(); }

	Buf<int> rp(m.rp), ci(m.ci), di(m.di); Buf<double> v(m.v), bb(p.b);
	auto view = [&]() { return Stor(rp.p, ci.p, v.p, di.p, rp.p+1, m.n, m.nnz(), m.nnz(), bs); };
	const bool one_thread = omp_get_max_threads() == 1;

	// oracles
	Vec jac(N);
	for(int i = 0; i < m.n; i++) { Vec t(p.b.begin()+i*bs, p.b.begin()+(i+1)*bs); Vec r = dapply(p.di[i], t); for(int a = 0; a < bs; a++) jac[i*bs+a] = r[a]; }

	Buf<double> z(p.x);
	auto check = [&](const char *key, const Vec& want) {
		expect(key, z.vec(), want, 1e-7);
		expect("rhs-kept", bb.vec(), p.b, 0); expect("matrix-kept", v.vec(), m.v, 0);
	};
	auto reset = [&]() { for(int i = 0; i < N; i++) z[i] = p.x[i]; };
	std::unique_ptr<Preconditioner<double,int>> op;
	if(which == 0) op.reset(new typename T::J(view()));
	else if(which == 1) op.reset(new typename T::S(view(), ns, ai, 2));
	else op.reset(new typename T::C(view(), ns, 2));
	expect_true("dim", op->dim() == N);
	expect_true("relaxation-available", op->relaxationAvailable());
	op->setApplyParams(sp);
	for(int rep = 0; rep < 2; rep++) {
		op->compute();
		if(which == 0) {
			op->apply(bb.p, z.p); check("jacobi-apply", jac); reset();
			op->apply_relax(bb.p, z.p);
			Vec x = p.x; double ref = 1; bool unsure = false;
			for(int s = 0; s < sp.maxits; s++) {
				Vec y = x; for(int i = 0; i < m.n; i++) rowupdate(p, x, y, i);
				double d = 0; for(int i = 0; i < N; i++) d += (y[i]-x[i])*(y[i]-x[i]); d = std::sqrt(d);
				x = y;
				if(sp.ctol) { if(s == 0) ref = d; int q = stops(d, ref, sp); if(q == 0) unsure = true; if(q != -1) break; }
			}
			if(!unsure) check("jacobi-relaxation", x);
			reset();
		}
		else if(!one_thread) { op->apply(bb.p, z.p); expect("rhs-kept", bb.vec(), p.b, 0); expect("matrix-kept", v.vec(), m.v, 0); reset(); }
		else if(which == 2) {
			op->apply(bb.p, z.p);
			Vec x = p.x; for(int s = 0; s < ns; s++) for(int i = 0; i < m.n; i++) rowupdate(p, x, x, i);
			check("chaotic-apply", x); reset();
			op->apply_relax(bb.p, z.p);
			x = p.x; for(int s = 0; s < sp.maxits; s++) for(int i = 0; i < m.n; i++) rowupdate(p, x, x, i);
			check("chaotic-relaxation", x); reset();
		}
		else {
			op->apply(bb.p, z.p);
			// z = (D+U)^-1 D (D+L)^-1 r by dense solves
			auto A = m.dense(); Dense L(N, Vec(N, 0)), U = L, D = L;
			for(int i = 0; i < N; i++) for(int j = 0; j < N; j++) { int bi = i/bs, bj = j/bs;
				if(bj <= bi) L[i][j] = A[i][j]; if(bj >= bi) U[i][j] = A[i][j]; if(bi == bj) D[i][j] = A[i][j]; }
			check("sgs-apply", dsolve(U, dapply(D, dsolve(L, p.b)))); reset();
			op->apply_relax(bb.p, z.p);
			Vec x = p.x;
			for(int s = 0; s < sp.maxits; s++) { for(int i = 0; i < m.n; i++) rowupdate(p, x, x, i); for(int i = m.n-1; i >= 0; i--) rowupdate(p, x, x, i); }
			check("sgs-relaxation", x); reset();
		}
		// new values, same pattern: recomputing must use them
		if(rep == 0) { for(auto& q : m.v) q *= 2; for(int k = 0; k < v.n; k++) v[k] = m.v[k];
			for(auto& d : p.di) for(auto& r : d) for(auto& q : r) q *= 0.5; for(auto& q : jac) q *= 0.5; }
	}
}
static void onecase(Rng& g, long k)
{
	switch(k % 4) {
	case 0: one<1,ColMajor>(g, 0); break;
	case 1: one<4,ColMajor>(g, 0); break;
	case 2: one<5,ColMajor>(g, 0); break;
	case 3: one<4,RowMajor>(g, 1); break;
	}
}
DRIVER_MAIN(onecase)
