// Reordering and scaling of vectors and matrices, forward and inverse, against direct permutation.
#include "drv.hpp"
#include <reorderingscaling.hpp>
using namespace blasted;

template <int bs> struct RS : ReorderingScaling<double,int,bs> {
	void compute(const CRawBSRMatrix<double,int>&) { }
	void scales(const Vec& r, const Vec& c) { this->rowscale = r; this->colscale = c; }
};
static IVec perm(Rng& g, int n)
{
	IVec p(n); for(int i = 0; i < n; i++) p[i] = i;
	const int style = g.below(5);
	if(style == 0) return p;
	if(style == 1 && n > 1) { std::swap(p[0], p[n-1]); return p; }
	if(style == 2 && n > 1) { std::rotate(p.begin(), p.begin() + 1, p.end()); return p; }
	for(int k = n - 1; k > 0; k--) std::swap(p[k], p[g.below(k + 1)]);
	return p;
}
static IVec inv(const IVec& p) { IVec q(p.size()); for(size_t i = 0; i < p.size(); i++) q[p[i]] = (int)i; return q; }

// row i of the result is row r[i]; a block of column c goes to column cnew[c]
static Mat permuted(const Mat& m, const IVec& r, const IVec& cnew, bool sorted)
{
	Mat w; w.n = m.n; w.bs = m.bs; w.stor = m.stor; w.rp.assign(1, 0); w.di.assign(m.n, -1); const int b2 = m.bs * m.bs;
	for(int i = 0; i < m.n; i++) {
		std::vector<std::pair<int,int>> es; for(int j = m.rp[r[i]]; j < m.rp[r[i]+1]; j++) es.push_back({cnew[m.ci[j]], j});
		if(sorted) std::sort(es.begin(), es.end());
		for(auto& e : es) { w.ci.push_back(e.first); w.v.insert(w.v.end(), m.v.begin() + e.second*b2, m.v.begin() + (e.second+1)*b2); }
		w.rp.push_back((int)w.ci.size());
	}
	return w;
}

template <int bs> static void one(Rng& g)
{
	GenOpt o; o.density = g.unit(); o.diag = g.flip(); o.sorted = g.flip(0.6);
	const int n = g.flip(0.1) ? g.range(0, 1) : dim(g, 1, 11);
	const Mat m = gen(g, n, bs, 0, o);
	const bool hr = g.flip(0.7), hc = g.flip(0.7);
	const IVec r = perm(g, n), c = perm(g, n);
	IVec id(n); for(int i = 0; i < n; i++) id[i] = i;
	RS<bs> rs;
	{ Buf<int> br(r), bc(c); rs.setOrdering(hr ? br.p : nullptr, hc ? bc.p : nullptr, n); expect("ordering-kept", br.vec(), r); expect("ordering-kept", bc.vec(), c); }
	g_case += std::string(" rows=") + (hr ? str(r) : "none") + " columns=" + (hc ? str(c) : "none") + " " + m.desc();
	expect_true("has-rows", rs.isRowReordering() == (hr && n > 0));
	const RSApplyMode mode = g.flip() ? FORWARD : INVERSE;
	g_case += mode == FORWARD ? " forward" : " inverse";
	const IVec R = hr ? r : id, C = hc ? c : id;
	const int what = g.below(4);
	if(what == 0) {   // matrix ordering, and back
		Buf<int> rp(m.rp), ci(m.ci), di(m.di); Buf<double> v(m.v);
		RawBSRMatrix<double,int> raw; raw.browptr = rp.p; raw.bcolind = ci.p; raw.vals = v.p; raw.diagind = di.p; raw.browendptr = rp.p + 1; raw.nbrows = n; raw.nnzb = raw.nbstored = m.nnz();
		Mat w = mode == FORWARD ? permuted(m, R, inv(C), hc && n > 0) : permuted(m, inv(R), C, hc && n > 0);
		rs.applyOrdering(raw, mode);
		expect("matrix-rows", rp.vec(), w.rp); expect("matrix-columns", ci.vec(), w.ci); expect("matrix-blocks", v.vec(), w.v, 0);
		expect_true("matrix-fields", raw.browptr == rp.p && raw.bcolind == ci.p && raw.vals == v.p && raw.nbrows == n);
		w = permuted(w, mode == FORWARD ? inv(R) : R, mode == FORWARD ? C : inv(C), hc && n > 0);
		rs.applyOrdering(raw, mode == FORWARD ? INVERSE : FORWARD);
		expect("restored-rows", rp.vec(), m.rp); expect("restored-columns", ci.vec(), w.ci); expect("restored-blocks", v.vec(), w.v, 0);
		if(o.sorted) { expect("restored-columns", ci.vec(), m.ci); expect("restored-blocks", v.vec(), m.v, 0); }
	} else if(what == 1) {   // vector ordering, and back
		const Vec x = rvec(g, n * bs); Buf<double> b(x);
		const RSApplyDir dir = g.flip() ? ROW : COLUMN;
		const IVec& P = dir == ROW ? R : C;
		Vec y(n * bs); for(int i = 0; i < n; i++) for(int k = 0; k < bs; k++) { if(mode == FORWARD) y[i*bs+k] = x[P[i]*bs+k]; else y[P[i]*bs+k] = x[i*bs+k]; }
		g_case += " direction " + std::to_string(dir) + " vector " + str(x);
		rs.applyOrdering(b.p, mode, dir); expect("vector", b.vec(), y, 0);
		rs.applyOrdering(b.p, mode == FORWARD ? INVERSE : FORWARD, dir); expect("vector-restored", b.vec(), x, 0);
	} else {
		auto sc = [&]() { Vec s = rvec(g, n); for(auto& t : s) t = t < 0 ? t - 0.3 : t + 0.3; return s; };
		const Vec rsc = hr ? sc() : Vec(), csc = hc ? sc() : Vec();
		rs.scales(rsc, csc);
		g_case += " rowscale " + str(rsc) + " colscale " + str(csc);
		if(what == 2) {
			Buf<int> rp(m.rp), ci(m.ci), di(m.di); Buf<double> v(m.v);
			RawBSRMatrix<double,int> raw; raw.browptr = rp.p; raw.bcolind = ci.p; raw.vals = v.p; raw.diagind = di.p; raw.browendptr = rp.p + 1; raw.nbrows = n; raw.nnzb = raw.nbstored = m.nnz();
			Mat w = m;
			for(int i = 0; i < n; i++) for(int j = m.rp[i]; j < m.rp[i+1]; j++) for(int k = 0; k < bs*bs; k++) {
				const double f = (hr ? rsc[i] : 1.0) * (hc ? csc[m.ci[j]] : 1.0);
				if(mode == FORWARD) w.v[j*bs*bs+k] *= f; else w.v[j*bs*bs+k] /= f;
			}
			rs.applyScaling(raw, mode); expect("scaled", v.vec(), w.v, 1e-12);
			rs.applyScaling(raw, mode == FORWARD ? INVERSE : FORWARD); expect("scaled-restored", v.vec(), m.v, 1e-12);
			expect("pattern-kept", rp.vec(), m.rp); expect("pattern-kept", ci.vec(), m.ci); expect("pattern-kept", di.vec(), m.di);
		} else {
			const Vec x = rvec(g, n * bs); Buf<double> b(x); Vec y = x;
			const RSApplyDir dir = g.flip() ? ROW : COLUMN;
			const Vec& S = dir == ROW ? rsc : csc;
			if(S.size()) for(int i = 0; i < n; i++) for(int k = 0; k < bs; k++) { if(mode == FORWARD) y[i*bs+k] *= S[i]; else y[i*bs+k] /= S[i]; }
			g_case += " direction " + std::to_string(dir) + " vector " + str(x);
			rs.applyScaling(b.p, mode, dir); expect("scaled-vector", b.vec(), y, 1e-12);
			rs.applyScaling(b.p, mode == FORWARD ? INVERSE : FORWARD, dir); expect("scaled-vector-restored", b.vec(), x, 1e-12);
		}
	}
}
static void onecase(Rng& g, long k) { switch(k % 3) { case 0: one<1>(g); break; case 1: one<4>(g); break; case 2: one<7>(g); break; } }
DRIVER_MAIN(onecase)
