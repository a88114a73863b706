// Position lists of the incomplete factorization against a direct enumeration; sparse search over a range.
#include "drv.hpp"
#include <ilu_pattern.hpp>
#include <helper_algorithms.hpp>
using namespace blasted;

static void search(Rng& g)
{
	const int len = dim(g, 0, 12);
	IVec a; int next = g.range(-3, 3); for(int i = 0; i < len; i++) { a.push_back(next); next += 1 + g.range(0, g.range(0, 3)); } // increasing, as the rows searched by the library
	int lo = g.range(0, len), hi = g.range(0, len); if(lo > hi && g.flip()) std::swap(lo, hi);
	const int target = g.range(-4, len > 12 ? 3 * len / 2 : 14), old = g.flip() ? -1 : g.range(-5, 50);
	Buf<int> A(a), p(1); p[0] = old;
	g_case += " search " + str(a) + " from " + std::to_string(lo) + " to " + std::to_string(hi) + " for " + std::to_string(target) + " pos=" + std::to_string(old);
	internal::inner_search<int>(A.p, lo, hi, target, p.p);
	bool any = false; for(int k = lo; k < hi; k++) any = any || a[k] == target;
	if(any ? !(p[0] >= lo && p[0] < hi && a[p[0]] == target) : p[0] != old) fail("search", "position " + std::to_string(p[0]));
	expect("search-kept", A.vec(), a);
}

static void onecase(Rng& g, long k)
{
	if(k % 4 == 3) { search(g); return; }
	GenOpt o; o.density = g.unit() * g.unit(); if(g.flip(0.2)) o.density = 0.9; o.symm = g.flip(0.3);
	Mat m = gen(g, g.flip(0.05) ? g.range(0, 1) : dim(g, 1, 16), 1, 0, o);
	Buf<int> rp(m.rp), ci(m.ci), di(m.di); Buf<double> v(m.v);
	CRawBSRMatrix<double,int> raw; raw.browptr = rp.p; raw.bcolind = ci.p; raw.vals = v.p; raw.diagind = di.p; raw.browendptr = rp.p + 1; raw.nbrows = m.n; raw.nnzb = raw.nbstored = m.nnz();
	g_case += " n=" + std::to_string(m.n) + " rp=" + str(m.rp) + " ci=" + str(m.ci);
	const ILUPositions<int> pl = compute_ILU_positions_CSR_CSR(&raw);
	IVec P(1, 0), L, U;
	for(int i = 0; i < m.n; i++) for(int j = m.rp[i]; j < m.rp[i+1]; j++) {
		for(int q = 0; q < i && q < m.ci[j]; q++) {
			int a = -1, b = -1;
			for(int t = m.rp[i]; t < m.rp[i+1]; t++) if(m.ci[t] == q) a = t;
			for(int t = m.rp[q]; t < m.rp[q+1]; t++) if(m.ci[t] == m.ci[j]) b = t;
			if(a >= 0 && b >= 0) { L.push_back(a); U.push_back(b); }
		}
		P.push_back((int)L.size());
	}
	expect("boundaries", pl.posptr, P); expect("lower-positions", pl.lowerp, L); expect("upper-positions", pl.upperp, U);
	expect("structure-kept", rp.vec(), m.rp); expect("structure-kept", ci.vec(), m.ci); expect("structure-kept", di.vec(), m.di);
}
DRIVER_MAIN(onecase)
