#include "drv.hpp"
#include <matrix_properties.hpp>
#include <blas/blas1.hpp>
#include <blockmatrices.hpp>
using namespace blasted;

template <int bs, StorageOptions stor> static void dom(Rng& g, const Mat& m)
{
	const Gapped G = gapped(g, m, g.flip());
	Buf<int> rp(G.rp), ci(G.ci), di(G.di), en(G.en); Buf<double> v(G.v);
	g_case += " row-starts=" + str(G.rp) + " row-ends=" + str(G.en);
	double la = 0, lm = 1e300, ua = 0, um = 1e300;
	for(int i = 0; i < m.n; i++) for(int r = 0; r < bs; r++) {
		double u = 0, l = 0;
		for(int j = m.rp[i]; j < m.rp[i + 1]; j++) for(int c = 0; c < bs; c++) {
			const double a = std::fabs(m.el(j, r, c));
			if(m.ci[j] < i) l += a; else if(!(m.ci[j] == i && r == c)) u += a;
		}
		u = 1 - u / std::fabs(m.el(m.di[i], r, r)); l = 1 - l;
		la += l / (m.n * bs); ua += u / (m.n * bs); lm = std::min(lm, l); um = std::min(um, u);
	}
	const auto a = diagonal_dominance<double,int,bs,stor>(SRMatrixStorage<const double,const int>(rp.p, ci.p, v.p, di.p, en.p, m.n, m.nnz(), (int)G.ci.size(), bs));
	expect("dominance-lower-average", a[0], la); expect("dominance-lower-minimum", a[1], lm);
	expect("dominance-upper-average", a[2], ua); expect("dominance-upper-minimum", a[3], um);
	expect("dominance-input-values", v.vec(), G.v, 0);
}

static void onecase(Rng& g, long k)
{
	{
		const int n = g.flip(0.2) ? 0 : g.range(0, 70); device_vector<double> v(n); double w = 0;
		const int style = g.below(4); const double sc = style == 1 ? 1e-310 : style == 2 ? 1e200 : 1;
		for(auto& x : v) { x = style == 0 ? 0 : style == 3 ? -g.unit() : sc * g.val(); w = std::max(w, std::fabs(x)); }
		g_case += " vector=" + str(Vec(v.begin(), v.end()));
		const double got = maxnorm(v);
		if(got != w) { char b[100]; snprintf(b, 100, "maximum magnitude is %.17g, expected %.17g", got, w); fail("maxnorm", b); }
	}
	GenOpt o; o.density = g.flip(0.3) ? 0.8 : 0.3;
	const int which = g.below(5), bs = which == 0 ? 1 : which == 2 ? 5 : which == 4 ? 1 : 4, stor = which == 3;
	Mat m = gen(g, dim(g, 1, 9), bs, stor, o);
	if(g.flip(0.5)) for(auto& x : m.v) x *= g.flip(0.1) ? 0 : 3;
	for(int i = 0; i < m.n; i++) for(int r = 0; r < bs; r++) if(std::fabs(m.el(m.di[i], r, r)) < 1e-3) m.el(m.di[i], r, r) = g.flip() ? 0.7 : -1.3;
	g_case += " " + m.desc();
	if(which == 0) dom<1,ColMajor>(g, m);
	if(which == 1) dom<4,ColMajor>(g, m);
	if(which == 2) dom<5,ColMajor>(g, m);
	if(which == 3) dom<4,RowMajor>(g, m);
	if(which == 4) {
		int nz = 0, first = -1; double pr = 1, su = 0, mn = INFINITY, mx = 0;
		for(int i = 0; i < m.n; i++) {
			double& d = m.el(m.di[i], 0, 0);
			if(g.flip(0.25)) d = g.flip() ? 0.0 : g.flip() ? 1e-15 : -1e-15;
			if(g.flip(0.1)) d = g.flip() ? 3e-14 : -3e-14;
			if(std::fabs(d) < 100 * 2.220446049250313e-16) { nz++; if(first < 0) first = i; }
			pr *= d; su += std::fabs(d); mn = std::min(mn, std::fabs(d)); mx = std::max(mx, std::fabs(d));
		}
		g_case += " changed diagonal: " + m.desc();
		Buf<int> rp(m.rp), ci(m.ci), di(m.di), en(IVec(m.rp.begin() + 1, m.rp.end())); Buf<double> v(m.v);
		BSRMatrix<double,int,1> A(m.n, rp.p, ci.p, v.p, di.p);
		expect_true("zero-diagonals", (int)A.getNumZeroDiagonals() == nz); expect_true("zero-diagonal-row", A.zeroDiagonalRow() == first);
		expect("diagonal-product", A.getDiagonalProduct(), pr); expect("diagonal-abs-sum", A.getDiagonalAbsSum(), su);
		expect_true("diagonal-abs-min", A.getAbsMinDiagonalEntry() == mn); expect_true("diagonal-abs-max", A.getAbsMaxDiagonalEntry() == mx);
	}
}
DRIVER_MAIN(onecase)
