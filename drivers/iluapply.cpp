#include "drv.hpp"
#include <solverops_ilu0.hpp>
using namespace blasted;

struct Sc : AsyncILU0_SRPreconditioner<double,int> {
	Sc(SRMatrixStorage<const double,const int>&& m, int ns, bool us, ApplyInit ai, bool thr)
		: AsyncILU0_SRPreconditioner<double,int>(std::move(m), 1, ns, us, 3, INIT_F_ORIGINAL, ai, false, false, thr) { }
	void put(double *l, double *s, double *y) { iluvals = l; scale = s; ytemp = y; }
	double *il() { return iluvals; }
};
template <int bs, StorageOptions st> struct Bl : AsyncBlockILU0_SRPreconditioner<double,int,bs,st> {
	Bl(SRMatrixStorage<const double,const int>&& m, int ns, bool us, ApplyInit ai, bool thr)
		: AsyncBlockILU0_SRPreconditioner<double,int,bs,st>(std::move(m), 1, ns, us, 3, INIT_F_ORIGINAL, ai, false, thr, false) { }
	void put(double *l, double *s, double *y) { this->iluvals = l; this->scale = s; this->ytemp = y; }
	double *il() { return this->iluvals; }
};

template <class Op, int bs>
static void one(Rng& g, int stor)
{
	GenOpt o; o.density = g.unit();
	Mat m = gen(g, dim(g, 1, 10), bs, stor, o);
	const int N = m.n * bs;
	Buf<int> rp(m.rp), ci(m.ci), di(m.di); Buf<double> v(m.v);
	Mat F = m; for(auto& x : F.v) x = g.val() * 0.5;
	for(int i = 0; i < m.n; i++) for(int k = 0; k < bs; k++) F.el(m.di[i], k, k) = (g.flip() ? -1 : 1) * (0.7 + g.unit());
	const bool us = g.flip(); const int ns = g.range(1, 3);
	const bool thr = omp_get_max_threads() == 1 ? g.flip() : false;
	const ApplyInit ai = (ApplyInit)g.below(3);
	Vec sc(N), r = rvec(g, N), y0(N), z0(N);
	for(auto& x : sc) x = 0.5 + g.unit();
	for(auto& x : y0) x = g.flip(0.2) ? 1e5 : g.val();
	for(auto& x : z0) x = g.flip(0.2) ? NAN : g.val();
	{ std::ostringstream s; s << " scaled=" << us << " sweeps=" << ns << " init=" << ai << " threadedflag=" << thr << " factors: " << F.desc() << " r=" << str(r) << " scale=" << str(sc); g_case += s.str(); }
	// oracle: dense substitution
	Vec y(N), z(N);
	for(int i = 0; i < N; i++) y[i] = (us ? sc[i] : 1) * r[i];
	for(int i = 0; i < m.n; i++) for(int j = m.rp[i]; j < m.rp[i+1]; j++) if(m.ci[j] < i)
		for(int a = 0; a < bs; a++) for(int b = 0; b < bs; b++) y[i*bs+a] -= F.el(j, a, b) * y[m.ci[j]*bs+b];
	for(int i = m.n - 1; i >= 0; i--) {
		Vec t(y.begin() + i*bs, y.begin() + (i+1)*bs);
		for(int j = m.rp[i]; j < m.rp[i+1]; j++) if(m.ci[j] > i)
			for(int a = 0; a < bs; a++) for(int b = 0; b < bs; b++) t[a] -= F.el(j, a, b) * z[m.ci[j]*bs+b];
		for(int a = 0; a < bs; a++) {
			if(bs == 1) z[i] = t[0] / F.el(m.di[i], 0, 0);
			else { double s = 0; for(int b = 0; b < bs; b++) s += F.el(m.di[i], a, b) * t[b]; z[i*bs+a] = s; }
		}
	}
	if(us) for(int i = 0; i < N; i++) z[i] *= sc[i];
	Buf<double> fl(F.v), sb(sc), yb(y0), rb(r), zb(z0);
	double *const yp = yb.p, *const fp = fl.p, *const sp = sb.p;
	{
		Op op(SRMatrixStorage<const double,const int>(rp.p, ci.p, v.p, di.p, rp.p + 1, m.n, m.nnz(), m.nnz(), bs), ns, us, ai, thr);
		op.put(fl.release(), us ? sb.release() : nullptr, yb.release());
		expect_true("dim", op.dim() == N);
		try { for(int rep = 0; rep < 2; rep++) {
			op.apply(rb.p, zb.p);
			expect("ilu-apply", zb.vec(), z, 1e-8);
			expect("ilu-lower-solve", Vec(yp, yp + N), y, 1e-8);
			expect("rhs-kept", rb.vec(), r, 0); expect("factors-kept", Vec(fp, fp + m.v.size()), F.v, 0);
			if(us) expect("scale-kept", Vec(sp, sp + N), sc, 0);
		} } catch(std::exception& e) { fail("ilu-apply-throws", e.what()); }
	}
	expect("matrix-kept", v.vec(), m.v, 0);
}
static void onecase(Rng& g, long k)
{
	switch(k % 4) {
	case 0: one<Sc,1>(g, 0); break;
	case 1: one<Bl<4,ColMajor>,4>(g, 0); break;
	case 2: one<Bl<5,ColMajor>,5>(g, 0); break;
	case 3: one<Bl<4,RowMajor>,4>(g, 1); break;
	}
}
DRIVER_MAIN(onecase)
