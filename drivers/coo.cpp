// Coordinate files: any order of the entries gives the same compressed-row matrix.
#include "drv.hpp"
#include <unistd.h>
#include <coomatrix.hpp>
using namespace blasted;
static std::string g_dir;
struct E3 { int r, c; double v; };

static std::string num(Rng& g, double& v)
{
	char b[64];
	if(g.flip(0.3)) { v = g.range(-9, 9); snprintf(b, sizeof b, "%d", (int)v); }
	else { v = g.val() * std::pow(10.0, g.range(-6, 6)); snprintf(b, sizeof b, g.flip() ? "%.17g" : "%.17e", v); }
	return b;
}
static void header(Rng& g, std::ofstream& f, const char *kind, const char *scal)
{
	f << "%%MatrixMarket matrix " << kind << " " << scal << " general\n";
	for(int k = g.below(3); k > 0; k--) f << "% a comment " << k << "\n";
}

static void dense(Rng& g)
{
	const int r = g.range(1, 6), c = g.range(1, 3); Vec w;
	const std::string fn = g_dir + "/d.mtx";
	{ std::ofstream f(fn); header(g, f, "array", "real"); f << r << " " << c << "\n"; for(int k = 0; k < r*c; k++) { double v; f << num(g, v) << "\n"; w.push_back(v); } }
	const device_vector<double> d = readDenseMatrixMarket<double>(fn);
	g_case += " dense " + std::to_string(r) + "x" + std::to_string(c);
	expect("dense", Vec(d.begin(), d.end()), w, 0);
}

static void structure(const std::string& w, const SRMatrixStorage<double,int>& s, const Mat& m)
{
	g_case += "";
	expect_true(w + "-size", s.nbrows == m.n && s.nnzb == m.nnz() && s.nbstored == m.nnz());
	expect(w + "-rows", IVec(&s.browptr[0], &s.browptr[0] + m.n + 1), m.rp);
	expect(w + "-row-ends", IVec(&s.browendptr[0], &s.browendptr[0] + m.n), IVec(m.rp.begin() + 1, m.rp.end()));
	expect(w + "-columns", IVec(&s.bcolind[0], &s.bcolind[0] + m.nnz()), m.ci);
	expect(w + "-values", Vec(&s.vals[0], &s.vals[0] + m.nnz()*m.bs*m.bs), m.v, 0);
	expect(w + "-diagonal", IVec(&s.diagind[0], &s.diagind[0] + m.n), m.di);
}

static Mat blocked(const std::vector<E3>& es, int N, int bs, int stor)
{
	Mat m; m.n = N / bs; m.bs = bs; m.stor = stor; m.rp.assign(1, 0); m.di.assign(m.n, -1);
	for(int i = 0; i < m.n; i++) {
		IVec cols; for(auto& e : es) if(e.r / bs == i) cols.push_back(e.c / bs);
		std::sort(cols.begin(), cols.end()); cols.erase(std::unique(cols.begin(), cols.end()), cols.end());
		for(int c : cols) { if(c == i) m.di[i] = (int)m.ci.size(); m.ci.push_back(c); m.v.insert(m.v.end(), bs*bs, 0.0); for(auto& e : es) if(e.r / bs == i && e.c / bs == c) m.el((int)m.ci.size() - 1, e.r % bs, e.c % bs) = e.v; }
		m.rp.push_back((int)m.ci.size());
	}
	return m;
}
template <int bs> static void one(Rng& g)
{
	const int nb = g.range(1, bs == 1 ? 12 : 5), N = nb * bs;
	std::vector<E3> es; const double dens = g.unit() * (g.flip() ? 1 : 0.3); const bool diag = g.flip(0.5);
	const int style = g.below(3);
	std::ostringstream d; d << " N=" << N << " bs=" << bs << " entries";
	for(int i = 0; i < N; i++) {
		int cnt = 0; for(int j = 0; j < N; j++) if((style == 0 && std::abs(i - j) <= 1 && (diag || i / bs != j / bs)) || (style == 1 && j == N - 1 - i) || (i == j && diag) || g.flip(dens)) { es.push_back({i, j, 0}); cnt++; }
		if(!cnt) es.push_back({i, g.below(N), 0});    // the reader needs an entry in every row
	}
	if(g.flip(0.7)) for(int k = (int)es.size() - 1; k > 0; k--) std::swap(es[k], es[g.below(k + 1)]);
	const std::string fn = g_dir + "/m.mtx";
	{ std::ofstream f(fn); header(g, f, "coordinate", "real"); f << N << " " << N << " " << es.size() << "\n"; for(auto& e : es) { const std::string t = num(g, e.v); f << e.r + 1 << " " << e.c + 1 << " " << t << "\n"; d << " (" << e.r << "," << e.c << "," << e.v << ")"; } }
	g_case += d.str();
	COOMatrix<double,int> coo; coo.readMatrixMarket(fn);
	expect_true("coo-size", coo.numrows() == N && coo.numcols() == N && coo.numnonzeros() == (int)es.size());
	const Mat c = blocked(es, N, 1, 0);
	expect("coo-rows", coo.getRowPtrs(), c.rp);
	{ IVec ci, ri; Vec v; for(auto& e : coo.getEntries()) { ri.push_back(e.rowind); ci.push_back(e.colind); v.push_back(e.value); }
	  IVec wr; for(int i = 0; i < N; i++) for(int j = c.rp[i]; j < c.rp[i+1]; j++) wr.push_back(i);
	  expect("coo-entry-rows", ri, wr); expect("coo-entry-columns", ci, c.ci); expect("coo-entry-values", v, c.v, 0); }
	const int stor = g.below(2);
	g_case += stor ? " rowmajor" : " colmajor";
	const SRMatrixStorage<double,int> s = getSRMatrixFromCOO<double,int,bs>(coo, stor ? "rowmajor" : "colmajor");
	const Mat w = blocked(es, N, bs, stor);
	structure(bs == 1 ? "csr" : "bsr", s, w);
}
static void onecase(Rng& g, long k)
{
	if(g_dir.empty()) { char t[] = "coodrvXXXXXX"; g_dir = mkdtemp(t); }
	switch(k % 6) { case 0: case 1: one<1>(g); break; case 2: one<3>(g); break; case 3: one<4>(g); break; case 4: one<7>(g); break; case 5: dense(g); break; }
	unlink((g_dir + "/m.mtx").c_str()); unlink((g_dir + "/d.mtx").c_str()); rmdir(g_dir.c_str()); g_dir.clear();
}
DRIVER_MAIN(onecase)
