// Level schedules: consecutive non-empty groups covering all rows, no coupling inside a group.
#include "drv.hpp"
#include <levelschedule.hpp>
using namespace blasted;
static void onecase(Rng& g, long k)
{
	GenOpt o; o.density = g.unit() * g.unit(); o.symm = true;
	if(g.flip(0.1)) o.density = 0;
	Mat m = gen(g, g.flip(0.05) ? g.range(0, 1) : dim(g, 1, 16), 1, 0, o);
	if(k % 500 == 77) {    // hundreds of uncoupled rows (with some exceptions), and rows coupled with all or most of the earlier ones
		m = Mat(); m.n = g.flip() ? 257 : g.range(200, 300); const int full = m.n - 1 - g.below(3); const double some = g.flip() ? 0 : 0.1;
		m.rp.assign(1, 0); m.di.assign(m.n, -1);
		for(int i = 0; i < m.n; i++) { for(int c = 0; c < m.n; c++) if(c == i || i >= full || (i - c == 1 && g.flip(some))) { m.ci.push_back(c); m.v.push_back(1); } m.rp.push_back((int)m.ci.size()); }
	}
	for(bool again = true; again; ) {    // complete the pattern to a symmetric one
		again = false; auto has = [&](int i, int c) { return std::binary_search(m.ci.begin() + m.rp[i], m.ci.begin() + m.rp[i+1], c); };
		Mat s; s.n = m.n; s.bs = 1; s.rp.assign(1, 0); s.di.assign(m.n, -1);
		for(int i = 0; i < m.n; i++) { for(int c = 0; c < m.n; c++) if(has(i, c) || has(c, i)) { if(c == i) s.di[i] = (int)s.ci.size(); s.ci.push_back(c); s.v.push_back(g.val()); } s.rp.push_back((int)s.ci.size()); }
		m = s;
	}
	Buf<int> rp(m.rp), ci(m.ci), di(m.di); Buf<double> v(m.v);
	CRawBSRMatrix<double,int> raw; raw.browptr = rp.p; raw.bcolind = ci.p; raw.vals = v.p; raw.diagind = di.p; raw.browendptr = rp.p + 1; raw.nbrows = m.n; raw.nnzb = raw.nbstored = m.nnz();
	g_case += " n=" + std::to_string(m.n) + " rp=" + str(m.rp) + " ci=" + str(m.ci);
	fflush(stdout); FILE *keep = stdout; stdout = fopen("/dev/null", "w");   // the function prints
	const std::vector<int> l = computeLevels(&raw);
	fclose(stdout); stdout = keep;
	const std::string got = " levels " + str(l);
	if(l.empty() || l[0] != 0 || l.back() != m.n) fail("cover", "groups do not cover the rows:" + got);
	for(size_t k = 0; k + 1 < l.size(); k++) {
		if(l[k+1] <= l[k]) fail("non-empty", "empty or decreasing group:" + got);
		for(int i = l[k]; i < l[k+1]; i++) for(int j = m.rp[i]; j < m.rp[i+1]; j++) if(m.ci[j] != i && m.ci[j] >= l[k] && m.ci[j] < l[k+1]) fail("independent", "rows " + std::to_string(i) + " and " + std::to_string(m.ci[j]) + " are coupled in one group:" + got);
	}
	expect("structure-kept", rp.vec(), m.rp); expect("structure-kept", ci.vec(), m.ci);
}
DRIVER_MAIN(onecase)
