// Patterns of the approximate-inverse least-squares systems against a direct enumeration.
#include "drv.hpp"
#include <set>
#include <sai.hpp>
using namespace blasted;
template <class V> static IVec iv(const V& v) { return IVec(v.begin(), v.end()); }
static void onecase(Rng& g, long)
{
	GenOpt o; o.density = g.unit() * (g.flip() ? 1.0 : 0.4); o.symm = g.flip();
	Mat m = gen(g, g.flip(0.05) ? g.range(0, 1) : dim(g, 1, 11), 1, 0, o);
	Gapped q = gapped(g, m, g.flip(0.4));
	Buf<int> rp(q.rp), en(q.en), ci(q.ci), di(q.di); Buf<double> v(q.v);
	const bool full = g.flip();
	g_case += std::string(full ? " full" : " incomplete") + " n=" + std::to_string(m.n) + " rp=" + str(q.rp) + " end=" + str(q.en) + " ci=" + str(q.ci);
	typedef SRMatrixStorage<const double,const int> S;
	S mat(rp.p, ci.p, v.p, di.p, en.p, m.n, m.nnz(), (int)q.ci.size(), 1);
	const LeftSAIPattern<int> sp = full ? left_SAI_pattern<double,int>(std::move(mat)) : left_incomplete_SAI_pattern<double,int>(std::move(mat));
	IVec bpos, brow, bcol(1, 0), srp(1, 0), nv, ne, lcr;
	for(int i = 0; i < m.n; i++) {
		std::set<int> cons;
		for(int j = q.rp[i]; j < q.en[i]; j++) { if(!full) cons.insert(q.ci[j]); else for(int k = q.rp[q.ci[j]]; k < q.en[q.ci[j]]; k++) cons.insert(q.ci[k]); }
		const IVec cv(cons.begin(), cons.end());
		for(int j = q.rp[i]; j < q.en[i]; j++) {
			const int c = q.ci[j];
			for(int k = q.rp[c]; k < q.en[c]; k++) for(size_t t = 0; t < cv.size(); t++) if(cv[t] == q.ci[k]) { bpos.push_back(k); brow.push_back((int)t); }
			bcol.push_back((int)bpos.size());
		}
		nv.push_back(q.en[i] - q.rp[i]); ne.push_back((int)cv.size()); srp.push_back(srp.back() + nv.back());
		int d = -1; for(size_t t = 0; t < cv.size(); t++) if(cv[t] == i) d = (int)t;
		lcr.push_back(d);
	}
	expect("positions", iv(sp.bpos), bpos); expect("local-rows", iv(sp.browind), brow); expect("column-pointers", iv(sp.bcolptr), bcol); expect("row-pointers", iv(sp.sairowptr), srp);
	expect("variables", iv(sp.nVars), nv); expect("equations", iv(sp.nEqns), ne); expect("central-row", iv(sp.localCentralRow), lcr);
}
DRIVER_MAIN(onecase)
