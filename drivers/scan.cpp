#include "drv.hpp"
#include <helper_algorithms.hpp>
#include <utils/prefix_sum.hpp>
using namespace blasted;

static void onecase(Rng& g, long k)
{
	const int style = g.below(4), n = style == 0 ? g.range(0, 3) : style == 1 ? g.range(0, 20) : style == 2 ? g.range(0, 200) : 64 * g.range(1, 4) + g.range(-1, 1);
	IVec a(n); for(auto& x : a) x = g.range(-9, 40);
	const int T = g.flip(0.1) ? g.range(8, 24) : g.range(1, 10);
	g_case += " threads=" + std::to_string(T) + " array=" + str(a);
	IVec inc(n), exc(n); int s = 0;
	for(int i = 0; i < n; i++) { exc[i] = s; s += a[i]; inc[i] = s; }
	{ std::vector<int> v(a); internal::inclusive_scan(v); expect("inclusive-scan", v, inc); }
	{ device_vector<int> v(a.begin(), a.end()); internal::inclusive_scan(v); expect("inclusive-scan-device", IVec(v.begin(), v.end()), inc); }
	{ const std::vector<int> v(a); expect("inclusive-scan-copy", internal::inclusive_scan(v), inc); expect("inclusive-scan-copy-input", v, a); }
	omp_set_num_threads(T);
	Buf<int> c(a); prefix_sum(c.p, n); expect("prefix-sum", c.vec(), exc);
}
DRIVER_MAIN(onecase)
