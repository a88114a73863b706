// Column adjacency lists against a direct enumeration.
#include "drv.hpp"
#include <adjacency.hpp>
using namespace blasted;
static void onecase(Rng& g, long)
{
	GenOpt o; o.density = g.unit(); o.diag = g.flip(); o.sorted = g.flip();
	Mat m = gen(g, g.flip(0.05) ? g.range(0, 1) : dim(g, 1, 14), 1, 0, o);
	Buf<int> rp(m.rp), ci(m.ci), di(m.di); Buf<double> v(m.v);
	g_case += " n=" + std::to_string(m.n) + " rp=" + str(m.rp) + " ci=" + str(m.ci);
	SRMatrixStorage<double,int> mat(rp.p, ci.p, v.p, di.p, rp.p + 1, m.n, m.nnz(), m.nnz(), 1);
	ColumnAdjacency<double,int> ca(mat);
	IVec P(1, 0), R, L;
	for(int c = 0; c < m.n; c++) { for(int i = 0; i < m.n; i++) for(int j = m.rp[i]; j < m.rp[i+1]; j++) if(m.ci[j] == c) { R.push_back(i); L.push_back(j); } P.push_back((int)R.size()); }
	expect("pointers", ca.col_pointers(), P); expect("rows", ca.col_nonzero_rows(), R); expect("locations", ca.col_nonzero_locations(), L);
	expect("structure-kept", rp.vec(), m.rp); expect("structure-kept", ci.vec(), m.ci);
}
DRIVER_MAIN(onecase)
