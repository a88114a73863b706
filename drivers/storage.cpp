#include "drv.hpp"
#include <srmatrixdefs.hpp>
#include <blockmatrices.hpp>
using namespace blasted;

template <typename T> static T *newbuf(int n) { return (T*)boost::alignment::aligned_alloc(64, sizeof(T) * (n > 0 ? n : 1)); }
template <typename T> static T pick(Rng& g) { return (T)g.range(-1000, 1000); }

// random histories of array views checked against a model: contents, sizes; ASan/LSan check frees
template <typename T>
static void arrays(Rng& g)
{
	const int K = 4;
	struct Model { bool null = true; std::vector<T> v; T *ptr = nullptr; bool ext = false; };
	std::vector<ArrayView<T>*> a(K); std::vector<Model> m(K);
	std::vector<Buf<T>> ext; std::vector<std::vector<T>> extv; ext.reserve(64);
	for(int k = 0; k < K; k++) a[k] = new ArrayView<T>();
	std::ostringstream ops;
	auto check = [&](int k) {
		expect_true("view-size", a[k]->size() == (int)m[k].v.size(), ops.str());
		for(size_t i = 0; i < m[k].v.size(); i++) expect_true("view-contents", (*a[k])[(int)i] == m[k].v[i] && (*(const ArrayView<T>*)a[k])[(int)i] == m[k].v[i], ops.str());
		if(m[k].ptr && m[k].v.size()) expect_true("view-address", &(*a[k])[0] == m[k].ptr, ops.str());
	};
	for(int step = 0; step < 30; step++) {
		int k = g.below(K), o = g.below(9);
		ops << " " << o << "/" << k; g_case = "arrays" + ops.str();
		if(o == 0) { int n = g.below(6); a[k]->resize(n); m[k].v.resize(n); for(int i = 0; i < n; i++) { m[k].v[i] = pick<T>(g); (*a[k])[i] = m[k].v[i]; } m[k].ptr = nullptr; m[k].ext = false; }
		else if(o == 1) { int n = g.below(6); std::vector<T> v(n); for(auto& x : v) x = pick<T>(g); ext.emplace_back(v); extv.push_back(v); a[k]->wrap(ext.back().p, n); m[k].v = v; m[k].ptr = ext.back().p; m[k].ext = true; }
		else if(o == 2) { int n = g.below(6); T *p = newbuf<T>(n); std::vector<T> v(n); for(int i = 0; i < n; i++) p[i] = v[i] = pick<T>(g); a[k]->take_control(p, n); m[k].v = v; m[k].ptr = p; m[k].ext = false; }
		else if(o == 3) { ArrayView<T> *b = new ArrayView<T>(std::move(*a[k])); expect_true("moved-from", a[k]->size() == 0); delete a[k]; a[k] = b; }
		else if(o == 4) { delete a[k]; int n = g.below(6); a[k] = new ArrayView<T>(n); m[k].v.assign(n, T()); for(int i = 0; i < n; i++) { m[k].v[i] = pick<T>(g); (*a[k])[i] = m[k].v[i]; } m[k].ptr = nullptr; m[k].ext = false; }
		else if(o == 5) { delete a[k]; bool own = g.flip(); int n = g.below(6); std::vector<T> v(n); for(auto& x : v) x = pick<T>(g);
			if(own) { T *p = newbuf<T>(n); for(int i = 0; i < n; i++) p[i] = v[i]; a[k] = new ArrayView<T>(p, n, true); m[k].ptr = p; }
			else { ext.emplace_back(v); extv.push_back(v); a[k] = g.flip() ? new ArrayView<T>(ext.back().p, n) : new ArrayView<T>(ext.back().p, n, false); m[k].ptr = ext.back().p; }
			m[k].v = v; m[k].ext = !own; }
		else if(o == 6) {
			ArrayView<const T> c = move_to_const(std::move(*a[k]));
			expect_true("const-size", c.size() == (int)m[k].v.size() && a[k]->size() == 0);
			for(size_t i = 0; i < m[k].v.size(); i++) expect_true("const-contents", c[(int)i] == m[k].v[i]);
			m[k] = Model();
		}
		else if(o == 7 && m[k].v.size()) { int i = g.below((int)m[k].v.size()); T x = pick<T>(g); (*a[k])[i] = x; m[k].v[i] = x;
			if(m[k].ext) for(size_t e = 0; e < ext.size(); e++) if(ext[e].p == m[k].ptr) extv[e][i] = x; }
		else { std::swap(a[k], a[(k + 1) % K]); std::swap(m[k], m[(k + 1) % K]); }
		for(int q = 0; q < K; q++) check(q);
	}
	for(int k = 0; k < K; k++) delete a[k];
	for(size_t e = 0; e < ext.size(); e++) expect_true("wrapped-buffer-untouched", ext[e].vec() == extv[e]);
}

static SRMatrixStorage<double,int> owned(const Mat& m)
{
	ArrayView<int> rp(m.n + 1), ci(m.nnz()), di(m.n); ArrayView<double> v((int)m.v.size());
	for(int i = 0; i <= m.n; i++) rp[i] = m.rp[i];
	for(int i = 0; i < m.nnz(); i++) ci[i] = m.ci[i];
	for(size_t i = 0; i < m.v.size(); i++) v[(int)i] = m.v[i];
	for(int i = 0; i < m.n; i++) di[i] = m.di[i];
	ArrayView<int> en(m.n ? &rp[1] : nullptr, m.n);
	return SRMatrixStorage<double,int>(std::move(rp), std::move(ci), std::move(v), std::move(di), std::move(en), m.n, m.nnz(), m.nnz());
}
template <typename S> static void same(const S& s, const Mat& m, const std::string& key)
{
	expect_true(key + "-sizes", s.nbrows == m.n && s.nnzb == m.nnz() && s.nbstored == m.nnz() && s.browptr.size() == m.n + 1 && s.bcolind.size() == m.nnz()
	            && s.vals.size() == (int)m.v.size() && s.diagind.size() == m.n && s.browendptr.size() == m.n);
	for(int i = 0; i <= m.n; i++) expect_true(key + "-rp", s.browptr[i] == m.rp[i]);
	for(int i = 0; i < m.n; i++) expect_true(key + "-end", s.browendptr[i] == m.rp[i+1] && s.diagind[i] == m.di[i]);
	for(int i = 0; i < m.nnz(); i++) expect_true(key + "-ci", s.bcolind[i] == m.ci[i]);
	for(size_t i = 0; i < m.v.size(); i++) expect_true(key + "-v", s.vals[(int)i] == m.v[i]);
}
static void storage(Rng& g)
{
	int bs = g.flip() ? 1 : 4;
	GenOpt o; o.density = g.unit(); Mat m = gen(g, g.range(1, 7), bs, 0, o);
	g_case += " storage " + m.desc();
	SRMatrixStorage<double,int> a = owned(m); same(a, m, "owned");
	SRMatrixStorage<double,int> b(std::move(a)); same(b, m, "moved");
	expect_true("moved-from-arrays", a.browptr.size() == 0 && a.vals.size() == 0 && a.bcolind.size() == 0 && a.diagind.size() == 0);
	{ SRMatrixStorage<const double,const int> sh = share_with_const<double,int>(b, bs); same(sh, m, "shared"); }
	same(b, m, "after-share");
	SRMatrixStorage<const double,const int> c = move_to_const(std::move(b)); same(c, m, "const");
	expect_true("const-from", b.nbrows == 0 && b.nnzb == 0 && b.nbstored == 0 && b.browptr.size() == 0 && b.vals.size() == 0);
	SRMatrixStorage<const double,const int> d(std::move(c)); same(d, m, "const-moved");
	{
		auto L = getLowerTriangularView(std::move(d)); auto U = getUpperTriangularView(std::move(d));
	}
	same(d, m, "after-views");
	if(g.flip()) {
		Buf<int> rp(m.rp), ci(m.ci), di(m.di); Buf<double> v(m.v);
		{ SRMatrixStorage<double,int> w(rp.p, ci.p, v.p, di.p, rp.p + 1, m.n, m.nnz(), m.nnz(), bs); same(w, m, "wrapped"); SRMatrixStorage<double,int> w2(std::move(w)); same(w2, m, "wrapped-moved"); }
		expect("wrapped-kept", rp.vec(), m.rp); expect("wrapped-kept-v", v.vec(), m.v);
	}
}
template <typename T> static T *dupbuf(const std::vector<T>& v) { T *p = newbuf<T>((int)v.size()); std::copy(v.begin(), v.end(), p); return p; }
static void raw(Rng& g)
{
	GenOpt o; o.density = g.unit();
	Mat m = gen(g, g.range(1, 7), g.flip() ? 1 : 4, 0, o);
	g_case += " raw " + m.desc();
	Buf<int> rp(m.rp), ci(m.ci), di(m.di); Buf<double> v(m.v);
	CRawBSRMatrix<double,int> A(rp.p, ci.p, v.p, di.p, rp.p + 1, m.n, m.nnz(), m.nnz());
	RawBSRMatrix<double,int> C = m.bs == 1 ? copyRawBSRMatrix<double,int,1>(A) : copyRawBSRMatrix<double,int,4>(A);
	expect("copy", Vec(C.vals, C.vals + m.v.size()), m.v);
	C.vals[0] += 1;
	expect("copy-deep", v.vec(), m.v);
	alignedDestroyRawBSRMatrix(C);
	// a matrix whose row ends are a separate allocation
	RawBSRMatrix<double,int> D(dupbuf(m.rp), dupbuf(m.ci), dupbuf(m.v), dupbuf(m.di), nullptr, m.n, m.nnz(), m.nnz() + 1);
	IVec en(m.rp.begin() + 1, m.rp.end()); D.browendptr = dupbuf(en);
	alignedDestroyRawBSRMatrix(D);
}
template <int bs> static void takeover(Rng& g)
{
	GenOpt o; o.density = g.unit(); Mat m = gen(g, g.range(1, 6), bs, 1, o);
	g_case += " takeover " + m.desc();
	RawBSRMatrix<double,int> R(dupbuf(m.rp), dupbuf(m.ci), dupbuf(m.v), dupbuf(m.di), nullptr, m.n, m.nnz(), m.nnz());
	R.browendptr = R.browptr + 1;
	Vec x = rvec(g, m.n * bs), y(m.n * bs);
	{
		BSRMatrix<double,int,bs> B(R);
		expect_true("takeover-nulled", R.browptr == nullptr && R.vals == nullptr && R.bcolind == nullptr && R.diagind == nullptr && R.nbrows == 0 && R.nnzb == 0);
		B.apply(x.data(), y.data()); expect("takeover-apply", y, matvec(m, x));
		BSRMatrix<double,int,bs> C(B);
		B.setAllZero();
		C.apply(x.data(), y.data()); expect("deepcopy-apply", y, matvec(m, x));
	}
	Buf<int> rp(m.rp), ci(m.ci), di(m.di); Buf<double> v(m.v);
	{
		BSRMatrix<double,int,bs> W(m.n, rp.p, ci.p, v.p, di.p);
		W.apply(x.data(), y.data()); expect("wrap-apply", y, matvec(m, x));
		W.scaleAll(2.0);
	}
	Vec tw = m.v; for(auto& e : tw) e *= 2;
	expect("wrap-shared", v.vec(), tw);
	{
		BSRMatrix<double,int,bs> M(owned(m));
		M.apply(x.data(), y.data()); expect("move-apply", y, matvec(m, x));
	}
	{
		BSRMatrix<double,int,bs> S(m.n, ci.p, rp.p);
		expect_true("structure-dim", S.dim() == m.n * bs);
		S.setAllZero();
		for(int i = 0; i < m.n; i++) for(int j = m.rp[i]; j < m.rp[i+1]; j++) S.submitBlock(i*bs, m.ci[j]*bs, &m.v[j*bs*bs], bs == 1 ? 1 : 0, bs == 1 ? 1 : 0);
		S.apply(x.data(), y.data()); expect("structure-apply", y, matvec(m, x));
		BSRMatrix<double,int,bs> T; T.setStructure(m.n, ci.p, rp.p); T.setAllZero();
		for(int i = 0; i < m.n; i++) for(int j = m.rp[i]; j < m.rp[i+1]; j++) T.updateBlock(i*bs, m.ci[j]*bs, &m.v[j*bs*bs], bs == 1 ? 1 : 0, bs == 1 ? 1 : 0);
		T.apply(x.data(), y.data()); expect("setstructure-apply", y, matvec(m, x));
		auto eq = S.isEqual(T, 1e-13); for(bool b : eq) expect_true("isequal", b);
		T.setStructure(m.n, ci.p, rp.p);
	}
}
static void onecase(Rng& g, long k)
{
	std::cout.setstate(std::ios::failbit);
	switch(k % 6) {
	case 0: arrays<int>(g); break;
	case 1: arrays<double>(g); break;
	case 2: storage(g); break;
	case 3: raw(g); break;
	case 4: takeover<1>(g); break;
	default: if(g.flip()) takeover<3>(g); else takeover<7>(g);
	}
}
DRIVER_MAIN(onecase)
