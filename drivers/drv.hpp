// Shared helpers of the conformance drivers: random block-sparse structures and a naive dense oracle.
#ifndef DRV_HPP
#define DRV_HPP
#include <set>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <algorithm>
#include <sstream>
#include <iostream>
#include <memory>
#include <boost/align/aligned_alloc.hpp>
#include <omp.h>

#include <fstream>
typedef std::vector<double> Vec;
typedef std::vector<int> IVec;

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { for(int i = 0; i < 4; i++) next(); }
	uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
	int below(int n) { return n <= 0 ? 0 : (int)((next() >> 11) % (uint64_t)n); }
	int range(int a, int b) { return a + below(b - a + 1); }
	bool flip(double p = 0.5) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
	double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	double val() { return 2 * unit() - 1; }
};

// buffer of exactly n elements with the alignment the library uses (an overrun is visible to ASan)
template <typename T> struct Buf {
	T *p; int n;
	Buf(int n_) : p((T*)boost::alignment::aligned_alloc(64, sizeof(T) * (n_ > 0 ? n_ : 1))), n(n_) { }
	Buf(const std::vector<T>& v) : Buf((int)v.size()) { for(int i = 0; i < n; i++) p[i] = v[i]; }
	Buf(Buf&& o) : p(o.p), n(o.n) { o.p = nullptr; }
	Buf(const Buf&) = delete;
	~Buf() { if(p) boost::alignment::aligned_free(p); }
	T *release() { T *q = p; p = nullptr; return q; }
	operator std::vector<T>() const { return std::vector<T>(p, p + n); }
	std::vector<T> vec() const { return std::vector<T>(p, p + n); }
	T& operator[](int i) { return p[i]; }
};

static long g_cases = 0;
static std::string g_case;

[[noreturn]] static void fail(const std::string& key, const std::string& msg)
{
	printf("FAIL %s: %s\n", key.c_str(), msg.c_str());
	printf("INPUT %s\n", g_case.c_str());
	printf("CASES %ld\n", g_cases);
	fflush(stdout);
	_Exit(3);
}

// size of a structure: mostly small; about every 60th case is large, so that rows can be long
static int dim(Rng& g, int lo, int hi) { return g.below(60) == 7 ? g.range(hi, 4 * hi) : g.range(lo, hi); }

static std::string str(const IVec& v) { std::ostringstream o; o << "["; for(size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i]; o << "]"; return o.str(); }
static std::string str(const Vec& v) { std::ostringstream o; o.precision(17); o << "["; for(size_t i = 0; i < v.size() && i < 200; i++) o << (i ? "," : "") << v[i]; o << "]"; return o.str(); }

// a block-CSR matrix; stor 0: blocks column-major, 1: row-major
struct Mat {
	int n = 0, bs = 1, stor = 0, ncols = -1;
	IVec rp, ci, di;
	Vec v;
	int nnz() const { return (int)ci.size(); }
	double& el(int j, int r, int c) { return v[j * bs * bs + (stor ? r * bs + c : c * bs + r)]; }
	double el(int j, int r, int c) const { return v[j * bs * bs + (stor ? r * bs + c : c * bs + r)]; }
	std::vector<Vec> dense() const {
		int nc = ncols < 0 ? n : ncols;
		std::vector<Vec> d(n * bs, Vec(nc * bs, 0.0));
		for(int i = 0; i < n; i++) for(int j = rp[i]; j < rp[i + 1]; j++)
			for(int r = 0; r < bs; r++) for(int c = 0; c < bs; c++) d[i * bs + r][ci[j] * bs + c] += el(j, r, c);
		return d;
	}
	std::string desc() const { std::ostringstream o; o << "n=" << n << " bs=" << bs << " stor=" << stor << " rp=" << str(rp) << " ci=" << str(ci) << " di=" << str(di) << " v=" << str(v); return o.str(); }
};

struct GenOpt { bool diag = true, sorted = true, dominant = false, symm = false, dup = false; double density = 0.4; };

static Mat gen(Rng& g, int n, int bs, int stor, const GenOpt& o)
{
	Mat m; m.n = n; m.bs = bs; m.stor = stor; m.rp.assign(n + 1, 0); m.di.assign(n, -1);
	std::vector<std::vector<char>> pat(n, std::vector<char>(n, 0));
	int style = g.below(6); const bool zeros = g.below(8) == 5;   // stored zeros outside the diagonal blocks
	for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) {
		bool b = g.flip(o.density);
		if(style == 0) b = std::abs(i - j) <= 1;
		if(style == 1 && g.flip(0.5)) b = false;
		if(style == 2 && i == n - 1) b = true;
		if(style == 3 && j == 0) b = true;
		if(style == 4 && (i % 3 == 0) && i != j) b = false;
		if(b) pat[i][j] = 1;
		if(b && o.symm) pat[j][i] = 1;
		if(i == j && o.diag) pat[i][j] = 1;
	}
	for(int i = 0; i < n; i++) {
		IVec cols;
		for(int j = 0; j < n; j++) if(pat[i][j]) cols.push_back(j);
		if(!o.sorted) for(int k = (int)cols.size() - 1; k > 0; k--) std::swap(cols[k], cols[g.below(k + 1)]);
		for(int c : cols) {
			if(c == i) m.di[i] = (int)m.ci.size();
			m.ci.push_back(c);
			for(int k = 0; k < bs * bs; k++) m.v.push_back(zeros && c != i && g.flip(0.3) ? 0.0 : g.val());
		}
		m.rp[i + 1] = (int)m.ci.size();
	}
	if(o.dominant) {
		auto d = m.dense();
		for(int i = 0; i < n; i++) if(m.di[i] >= 0) for(int r = 0; r < bs; r++) {
			double s = 0; for(double x : d[i * bs + r]) s += std::fabs(x);
			m.el(m.di[i], r, r) = (g.flip(0.2) ? -1 : 1) * (s + 0.5 + g.unit());
		}
	}
	return m;
}

// the same matrix with unused slots (junk entries) between its rows: rows end at 'en', not at the next start
struct Gapped { IVec rp, en, ci, di, pos; Vec v; };   // pos: position of every stored entry in the gapped arrays
static Gapped gapped(Rng& g, const Mat& m, bool gaps)
{
	Gapped r; const int b2 = m.bs * m.bs;
	for(int i = 0; i < m.n; i++) {
		auto junk = [&](int n) { while(n-- > 0) { r.ci.push_back(g.below(m.n)); for(int k = 0; k < b2; k++) r.v.push_back(1e6 + g.val()); } };
		if(gaps && i > 0) junk(g.below(3));
		r.rp.push_back((int)r.ci.size());
		for(int j = m.rp[i]; j < m.rp[i+1]; j++) { r.pos.push_back((int)r.ci.size()); r.ci.push_back(m.ci[j]); for(int k = 0; k < b2; k++) r.v.push_back(m.v[j*b2+k]); }
		r.en.push_back((int)r.ci.size());
	}
	r.rp.push_back((int)r.ci.size());
	for(int d : m.di) r.di.push_back(d < 0 ? -1 : r.pos[d]);
	return r;
}

// some vectors have zeros among their entries
static Vec rvec(Rng& g, int n) { Vec v(n); const bool zeros = g.below(5) == 3; for(auto& x : v) { x = g.val(); if(zeros && g.flip(0.3)) x = 0; } return v; }

static bool close(double a, double b, double tol = 1e-9) { return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }

static void expect(const std::string& key, const Vec& got, const Vec& want, double tol = 1e-9)
{
	if(got.size() != want.size()) fail(key, "length " + std::to_string(got.size()) + " expected " + std::to_string(want.size()));
	for(size_t i = 0; i < got.size(); i++) if(!close(got[i], want[i], tol)) {
		std::ostringstream o; o.precision(17); o << "entry " << i << " is " << got[i] << ", expected " << want[i]; fail(key, o.str());
	}
}
static void expect(const std::string& key, const IVec& got, const IVec& want)
{
	if(got != want) fail(key, "got " + str(got) + " expected " + str(want));
}
static void expect(const std::string& key, double got, double want, double tol = 1e-9)
{
	if(!close(got, want, tol)) { std::ostringstream o; o.precision(17); o << "value " << got << ", expected " << want; fail(key, o.str()); }
}
static void expect_true(const std::string& key, bool b, const std::string& msg = "condition does not hold") { if(!b) fail(key, msg); }

static Vec matvec(const Mat& m, const Vec& x)
{
	Vec y(m.n * m.bs, 0.0);
	for(int i = 0; i < m.n; i++) for(int j = m.rp[i]; j < m.rp[i + 1]; j++)
		for(int r = 0; r < m.bs; r++) for(int c = 0; c < m.bs; c++) y[i * m.bs + r] += m.el(j, r, c) * x[m.ci[j] * m.bs + c];
	return y;
}

// dense small-matrix helpers
typedef std::vector<Vec> Dense;
static Dense dmul(const Dense& a, const Dense& b) { int n = a.size(), m = b.size(), p = m ? b[0].size() : 0; Dense c(n, Vec(p, 0)); for(int i = 0; i < n; i++) for(int k = 0; k < m; k++) for(int j = 0; j < p; j++) c[i][j] += a[i][k] * b[k][j]; return c; }
static Vec dapply(const Dense& a, const Vec& x) { Vec y(a.size(), 0); for(size_t i = 0; i < a.size(); i++) for(size_t j = 0; j < x.size(); j++) y[i] += a[i][j] * x[j]; return y; }
static Vec dsolve(Dense a, Vec b) {
	int n = a.size();
	for(int k = 0; k < n; k++) { int p = k; for(int i = k + 1; i < n; i++) if(std::fabs(a[i][k]) > std::fabs(a[p][k])) p = i; std::swap(a[p], a[k]); std::swap(b[p], b[k]);
		for(int i = k + 1; i < n; i++) { double f = a[i][k] / a[k][k]; for(int j = k; j < n; j++) a[i][j] -= f * a[k][j]; b[i] -= f * b[k]; } }
	for(int i = n - 1; i >= 0; i--) { for(int j = i + 1; j < n; j++) b[i] -= a[i][j] * b[j]; b[i] /= a[i][i]; }
	return b;
}
static Dense dinv(const Dense& a) { int n = a.size(); Dense r(n, Vec(n, 0)); for(int c = 0; c < n; c++) { Vec e(n, 0); e[c] = 1; Vec x = dsolve(a, e); for(int i = 0; i < n; i++) r[i][c] = x[i]; } return r; }

// cases with different descriptions are different inputs; the description of a case starts after its number
#define DRIVER_MAIN(onecase) \
int main(int argc, char **argv) { std::cout.setstate(std::ios::badbit); \
	const long seed = argc > 1 ? atol(argv[1]) : 1, cases = argc > 2 ? atol(argv[2]) : 100, only = argc > 3 ? atol(argv[3]) : -1; \
	std::set<size_t> distinct; \
	for(long k = 0; k < cases; k++) { if(only >= 0 && k != only) continue; Rng g(seed * 1000003 + k); g_case = "seed " + std::to_string(seed) + " case " + std::to_string(k); \
		const size_t head = g_case.size(); g_cases++; onecase(g, k); distinct.insert(std::hash<std::string>()(g_case.substr(head))); \
		if(k == 1 || k == 7) printf("SAMPLE %s\n", g_case.substr(0, 600).c_str()); } \
	printf("CASES %ld\nDISTINCT %ld\n", g_cases, (long)distinct.size()); return 0; }
#endif
