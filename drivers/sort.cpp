#include "drv.hpp"
#include <helper_algorithms.hpp>
using namespace blasted;

template <int bs> static void one(Rng& g)
{
	const int N = g.flip(0.1) ? g.range(0, 1) : dim(g, 0, 14);
	const int pre = g.below(3), post = g.below(3);
	IVec cols; int c = g.range(-3, 3);
	for(int i = 0; i < N; i++) { cols.push_back(c); c += 1 + (g.flip(0.3) ? g.below(1000) : 0); }
	const int style = g.below(4);
	if(style == 0) std::reverse(cols.begin(), cols.end());
	else if(style == 1 && N > 1) std::rotate(cols.begin(), cols.begin() + g.below(N), cols.end());
	else if(style == 2) for(int k = N - 1; k > 0; k--) std::swap(cols[k], cols[g.below(k + 1)]);
	Vec vals = rvec(g, N*bs*bs);
	g_case += " bs=" + std::to_string(bs) + " columns=" + str(cols) + " values=" + str(vals);
	// one row inside larger arrays: neighbours must not change
	IVec fc(pre + N + post, -77); Vec fv((pre + N + post)*bs*bs, -7.5);
	std::copy(cols.begin(), cols.end(), fc.begin() + pre); std::copy(vals.begin(), vals.end(), fv.begin() + pre*bs*bs);
	Buf<int> ci(fc); Buf<double> v(fv);
	internal::sortBlockInnerDimension<double,int,bs>(N, ci.p + pre, v.p + pre*bs*bs);
	IVec order(N); for(int i = 0; i < N; i++) order[i] = i;
	std::sort(order.begin(), order.end(), [&](int a, int b) { return cols[a] < cols[b]; });
	for(int i = 0; i < N; i++) { fc[pre+i] = cols[order[i]]; for(int k = 0; k < bs*bs; k++) fv[(pre+i)*bs*bs+k] = vals[order[i]*bs*bs+k]; }
	expect("columns", ci.vec(), fc); expect("blocks", v.vec(), fv, 0);
}
static void onecase(Rng& g, long k)
{
	switch(k % 5) { case 0: one<1>(g); break; case 1: one<2>(g); break; case 2: one<4>(g); break; case 3: one<5>(g); break; case 4: one<7>(g); break; }
}
DRIVER_MAIN(onecase)
