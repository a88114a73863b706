#include "drv.hpp"
#include <blockmatrices.hpp>
using namespace blasted;

template <int bs> struct Probe : public BSRMatrix<double,int,bs> {
	using BSRMatrix<double,int,bs>::BSRMatrix;
};

static IVec diagof(const Mat& m)
{
	IVec d(m.n, -1);
	for(int i = 0; i < m.n; i++) for(int j = m.rp[i]; j < m.rp[i+1]; j++) if(m.ci[j] == i) { d[i] = j; break; }
	return d;
}

// the stored values are seen through the product with unit vectors and through wrapped buffers
template <int bs>
static void history(Rng& g)
{
	GenOpt o; o.diag = g.flip(0.7); o.sorted = bs == 1 ? true : g.flip(); o.density = 0.2 + 0.7 * g.unit();
	Mat m = gen(g, dim(g, 1, 8), bs, 1, o);
	if(m.nnz() == 0) return;
	m.di = diagof(m);
	g_case += " assembly " + m.desc();
	Buf<int> rp(m.rp), ci(m.ci), di(m.di); Buf<double> v(m.v);
	std::unique_ptr<BSRMatrix<double,int,bs>> A;
	bool wrapped = g.flip();
	if(wrapped) A.reset(new BSRMatrix<double,int,bs>(m.n, rp.p, ci.p, v.p, di.p));
	else {
		if(g.flip()) A.reset(new BSRMatrix<double,int,bs>(m.n, ci.p, rp.p));
		else { A.reset(new BSRMatrix<double,int,bs>()); A->setStructure(m.n, ci.p, rp.p); }
		A->setAllZero();
		std::fill(m.v.begin(), m.v.end(), 0.0);
	}
	auto check = [&](const std::string& key, BSRMatrix<double,int,bs>& M, const Mat& want) {
		auto d = want.dense(); const int N = want.n * bs;
		for(int c = 0; c < N; c++) {
			Vec e(N, 0.0), y(N, 7.0); e[c] = 1; M.apply(e.data(), y.data());
			for(int r = 0; r < N; r++) if(!close(y[r], d[r][c])) { std::ostringstream s; s.precision(17); s << "entry (" << r << "," << c << ") is " << y[r] << ", expected " << d[r][c]; fail(key, s.str()); }
		}
	};
	std::ostringstream ops; std::string base = g_case;
	const int steps = g.range(1, 8);
	bool full = true; for(int d : m.di) if(d < 0) full = false;
	for(int s = 0; s < steps; s++) {
		const int op = g.below(8);
		if(op <= 2) {
			// submit or add a block at a stored position
			if(bs > 1) {
				int i = g.below(m.n); if(m.rp[i] == m.rp[i+1]) continue;
				int j = g.range(m.rp[i], m.rp[i+1]-1); Vec b = rvec(g, bs*bs); Buf<double> bb(b);
				ops << " " << (op == 0 ? "submit" : "add") << "(" << i << "," << m.ci[j] << ")"; g_case = base + ops.str();
				if(op == 0) A->submitBlock(i*bs, m.ci[j]*bs, bb.p, bs, bs); else A->updateBlock(i*bs, m.ci[j]*bs, bb.p, bs, bs);
				for(int k = 0; k < bs*bs; k++) m.v[j*bs*bs+k] = (op == 0 ? 0 : m.v[j*bs*bs+k]) + b[k];
			} else {
				// a dense rectangle of stored entries
				int si = g.below(m.n), bi = g.range(1, std::min(4, m.n - si));
				if(m.rp[si] == m.rp[si+1]) continue;
				int sj = m.ci[g.range(m.rp[si], m.rp[si+1]-1)], bj = 1;
				auto pos = [&](int r, int c) { for(int j = m.rp[r]; j < m.rp[r+1]; j++) if(m.ci[j] == c) return j; return -1; };
				auto ok = [&](int a, int b) { for(int r = 0; r < a; r++) for(int c = 0; c < b; c++) if(sj + c >= m.n || pos(si+r, sj+c) < 0) return false; return true; };
				while(bi > 1 && !ok(bi, 1)) bi--;
				while(bj < 4 && ok(bi, bj+1)) bj++;
				bj = g.range(1, bj);
				if(!ok(bi, bj)) continue;
				Vec b = rvec(g, bi*bj); Buf<double> bb(b);
				ops << " " << (op == 0 ? "submit" : "add") << "(" << si << "," << sj << " " << bi << "x" << bj << ")"; g_case = base + ops.str();
				if(op == 0) A->submitBlock(si, sj, bb.p, bi, bj); else A->updateBlock(si, sj, bb.p, bi, bj);
				for(int r = 0; r < bi; r++) for(int c = 0; c < bj; c++) { int p = pos(si+r, sj+c); m.v[p] = (op == 0 ? 0 : m.v[p]) + b[r*bj+c]; }
			}
		}
		else if(op == 3) {
			int i = g.below(m.n); if(m.di[i] < 0) continue;
			int sz = 1;
			if(bs == 1) {
				// contiguous diagonal block
				auto ok = [&](int z) { for(int r = 0; r < z; r++) { if(i + r >= m.n || m.di[i+r] < 0) return false; for(int c = 0; c < z; c++) { int p = m.di[i+r] - r + c; if(p < m.rp[i+r] || p >= m.rp[i+r+1] || m.ci[p] != i + c) return false; } } return true; };
				while(sz < 4 && ok(sz+1)) sz++;
				sz = g.range(1, sz); if(!ok(sz)) continue;
			} else sz = bs;
			Vec b = rvec(g, sz*sz); Buf<double> bb(b);
			int reps = g.flip(0.3) ? 20 : 1;
			ops << " adddiag(" << i << " size " << sz << " x" << reps << ")"; g_case = base + ops.str();
			// concurrent additions must all be counted
			#pragma omp parallel for
			for(int q = 0; q < reps; q++) A->updateDiagBlock(i*bs, bb.p, sz);
			if(bs > 1) for(int k = 0; k < bs*bs; k++) m.v[m.di[i]*bs*bs+k] += reps*b[k];
			else for(int r = 0; r < sz; r++) for(int c = 0; c < sz; c++) m.v[m.di[i+r]-r+c] += reps*b[r*sz+c];
		}
		else if(op == 4) { double f = g.flip(0.2) ? 0 : g.val(); ops << " scale " << f; g_case = base + ops.str(); A->scaleAll(f); for(auto& x : m.v) x *= f; }
		else if(op == 5 && full) { ops << " diagzero"; g_case = base + ops.str(); A->setDiagZero(); for(int i = 0; i < m.n; i++) for(int k = 0; k < bs*bs; k++) m.v[m.di[i]*bs*bs+k] = 0; }
		else if(op == 6 && g.flip(0.3)) { ops << " zero"; g_case = base + ops.str(); A->setAllZero(); std::fill(m.v.begin(), m.v.end(), 0.0); }
		else if(op == 7) {
			// an independent copy: changing it does not change the original
			BSRMatrix<double,int,bs> C(*A);
			ops << " copy"; g_case = base + ops.str();
			check("copy", C, m);
			auto eq = A->isEqual(C, 1e-14);
			for(int q = 0; q < 5; q++) expect_true("copy-equal", eq[q]);
			C.scaleAll(3.0); Mat m3 = m; for(auto& x : m3.v) x *= 3; check("copy-scaled", C, m3);
			bool nz = false; for(double x : m.v) if(std::fabs(x) > 1e-3) nz = true;
			if(nz) { auto e2 = A->isEqual(C, 1e-14); expect_true("equal-values", !e2[3]); expect_true("equal-structure", e2[0] && e2[1] && e2[2] && e2[4]); }
		}
		check("stored-values", *A, m);
		if(wrapped) expect("stored-array", v.vec(), m.v);
	}
	if(wrapped) { expect("rowptr-unchanged", rp.vec(), m.rp); expect("columns-unchanged", ci.vec(), m.ci); expect("diagonals-unchanged", di.vec(), m.di); }
	if(full) {
		// recorded diagonal positions: adding to the diagonal block of every row
		for(int i = 0; i < m.n; i++) { Vec b(bs*bs, 1.0); A->updateDiagBlock(i*bs, b.data(), bs); for(int k = 0; k < bs*bs; k++) m.v[m.di[i]*bs*bs+k] += 1; }
		check("diagonal-positions", *A, m);
	}
	std::unique_ptr<BSRMatrix<double,int,bs>> P(A.release());
	expect_true("dim", P->dim() == m.n*bs, std::to_string(P->dim()));
}

static void queries(Rng& g)
{
	GenOpt o; o.diag = true; o.sorted = true; o.density = g.unit();
	Mat m = gen(g, dim(g, 0, 9), 1, 0, o);
	for(int i = 0; i < m.n; i++) { double x = g.flip(0.2) ? 0 : (g.flip(0.1) ? 1e-15 : g.val()); m.v[m.di[i]] = x; }
	g_case += " queries " + m.desc();
	Buf<int> rp(m.rp), ci(m.ci), di(m.di); Buf<double> v(m.v);
	BSRMatrix<double,int,1> A(m.n, rp.p, ci.p, v.p, di.p);
	double pr = 1, su = 0, mi = INFINITY, ma = 0; int nz = 0, first = -1;
	for(int i = 0; i < m.n; i++) { double x = std::fabs(m.v[m.di[i]]); pr *= m.v[m.di[i]]; su += x; mi = std::min(mi, x); ma = std::max(ma, x); if(x < 100*2.220446049250313e-16) { nz++; if(first < 0) first = i; } }
	expect("diagonal-product", A.getDiagonalProduct(), pr);
	expect("diagonal-abs-sum", A.getDiagonalAbsSum(), su);
	expect_true("diagonal-abs-min", A.getAbsMinDiagonalEntry() == mi);
	expect_true("diagonal-abs-max", A.getAbsMaxDiagonalEntry() == ma);
	expect_true("zero-diagonals", (int)A.getNumZeroDiagonals() == nz);
	expect_true("zero-diagonal-row", A.zeroDiagonalRow() == first);
	expect("matrix-unchanged", v.vec(), m.v);
}

static void onecase(Rng& g, long k)
{
	switch(k % 4) {
	case 0: history<3>(g); break;
	case 1: history<7>(g); break;
	case 2: history<1>(g); break;
	case 3: queries(g); break;
	}
}
DRIVER_MAIN(onecase)
