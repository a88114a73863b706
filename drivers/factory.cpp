#include "drv.hpp"
#include <Eigen/Core>
#include <array>
#include <map>
#include <functional>
#include <limits>
#include <typeinfo>
#include <stdexcept>
#define private public
#define protected public
#include <solverfactory.hpp>
#include <solverops_base.hpp>
#include <solverops_jacobi.hpp>
#include <solverops_sgs.hpp>
#include <relaxation_chaotic.hpp>
#include <solverops_ilu0.hpp>
#include <solverops_levels_sgs.hpp>
#include <solverops_levels_ilu0.hpp>
#undef private
#undef protected
using namespace blasted;
typedef SRMatrixStorage<const double,const int> Stor;
typedef SRPreconditioner<double,int> P;

static AsyncSolverSettings S;
static void eq(const char *k, long a, long b) { if(a != b) fail(std::string("parameter-") + k, std::to_string(a) + " expected " + std::to_string(b)); }

template <class T> static bool ilu(const P *p, bool tf, bool ta, bool info)
{
	if(typeid(*p) != typeid(T)) return false;
	const T *q = static_cast<const T*>(p);
	eq("nbuildsweeps", q->nbuildsweeps, S.nbuildsweeps); eq("napplysweeps", q->napplysweeps, S.napplysweeps); eq("scale", q->usescaling, S.scale);
	eq("chunk", q->thread_chunk_size, S.thread_chunk_size); eq("factinit", q->factinittype, S.fact_inittype); eq("applyinit", q->applyinittype, S.apply_inittype);
	eq("threadedfactor", q->threadedfactor, tf); eq("threadedapply", q->threadedapply, ta); eq("info", info, S.compute_precinfo);
	return true;
}
template <class T> static bool lev(const P *p, bool info)
{
	if(typeid(*p) != typeid(T)) return false;
	const T *q = static_cast<const T*>(p);
	eq("nbuildsweeps", q->nbuildsweeps, S.nbuildsweeps); eq("scale", q->usescaling, S.scale);
	eq("chunk", q->thread_chunk_size, S.thread_chunk_size); eq("factinit", q->factinittype, S.fact_inittype);
	eq("threadedfactor", q->threadedfactor, true); eq("info", info, S.compute_precinfo);
	return true;
}
template <class T> static bool gs(const P *p)
{
	if(typeid(*p) != typeid(T)) return false;
	const T *q = static_cast<const T*>(p);
	eq("napplysweeps", q->napplysweeps, S.napplysweeps); eq("chunk", q->thread_chunk_size, S.thread_chunk_size);
	return true;
}
template <class T> static bool sgs(const P *p)
{
	if(!gs<T>(p)) return false;
	eq("applyinit", static_cast<const T*>(p)->ainit, S.apply_inittype);
	return true;
}
template <class T> static bool is(const P *p) { return typeid(*p) == typeid(T); }

static bool right1(const P *p)
{
	typedef AsyncILU0_SRPreconditioner<double,int> A; typedef Async_Level_ILU0<double,int> L;
	const bool a = is<A>(p) ? static_cast<const A*>(p)->compute_precinfo : is<L>(p) ? static_cast<const L*>(p)->compute_precinfo : false;
	switch(S.prectype) {
	case BLASTED_JACOBI: return is<JacobiSRPreconditioner<double,int>>(p);
	case BLASTED_GS: return gs<ChaoticRelaxation<double,int>>(p);
	case BLASTED_SGS: return sgs<AsyncSGS_SRPreconditioner<double,int>>(p);
	case BLASTED_ILU0: return ilu<A>(p, true, true, a);
	case BLASTED_SEQILU0: return ilu<A>(p, false, false, a);
	case BLASTED_SFILU0: return ilu<A>(p, false, true, a);
	case BLASTED_SAPILU0: return ilu<A>(p, true, false, a);
	case BLASTED_CSC_BGS: return gs<CSC_BGS_Preconditioner<double,int>>(p);
	case BLASTED_LEVEL_SGS: return is<Level_SGS<double,int>>(p);
	case BLASTED_ASYNC_LEVEL_ILU0: return lev<L>(p, a);
	case BLASTED_NO_PREC: return is<NoPreconditioner<double,int>>(p);
	default: return false;
	}
}
template <int bs, StorageOptions st> static bool rightb(const P *p)
{
	typedef AsyncBlockILU0_SRPreconditioner<double,int,bs,st> A; typedef Async_Level_BlockILU0<double,int,bs,st> L;
	const bool a = is<A>(p) ? static_cast<const A*>(p)->compute_remainder : is<L>(p) ? static_cast<const L*>(p)->compute_remainder : false;
	switch(S.prectype) {
	case BLASTED_JACOBI: return is<BJacobiSRPreconditioner<double,int,bs,st>>(p);
	case BLASTED_GS: return gs<ChaoticBlockRelaxation<double,int,bs,st>>(p);
	case BLASTED_SGS: return sgs<AsyncBlockSGS_SRPreconditioner<double,int,bs,st>>(p);
	case BLASTED_ILU0: return ilu<A>(p, true, true, a);
	case BLASTED_SEQILU0: return ilu<A>(p, false, false, a);
	case BLASTED_SFILU0: return ilu<A>(p, false, true, a);
	case BLASTED_SAPILU0: return ilu<A>(p, true, false, a);
	case BLASTED_LEVEL_SGS: return is<Level_BSGS<double,int,bs,st>>(p);
	case BLASTED_ASYNC_LEVEL_ILU0: return lev<L>(p, a);
	case BLASTED_NO_PREC: return is<NoPreconditioner<double,int>>(p);
	default: return false;
	}
}

static void names(Rng& g)
{
	SRFactory<double,int> f;
	const std::map<std::string,int> t{{"none",BLASTED_NO_PREC},{"jacobi",BLASTED_JACOBI},{"gs",BLASTED_GS},{"sgs",BLASTED_SGS},{"ilu0",BLASTED_ILU0},{"seqilu0",BLASTED_SEQILU0},{"sfilu0",BLASTED_SFILU0},
		{"sapilu0",BLASTED_SAPILU0},{"cscbgs",BLASTED_CSC_BGS},{"level_sgs",BLASTED_LEVEL_SGS},{"async_level_ilu0",BLASTED_ASYNC_LEVEL_ILU0}};
	const std::map<std::string,int> fi{{"init_zero",INIT_F_ZERO},{"init_original",INIT_F_ORIGINAL},{"init_sgs",INIT_F_SGS},{"init_none",INIT_F_NONE}};
	const std::map<std::string,int> ai{{"init_zero",INIT_A_ZERO},{"init_jacobi",INIT_A_JACOBI},{"init_none",INIT_A_NONE}};
	std::vector<std::string> all;
	for(auto *m : {&t, &fi, &ai}) for(auto& k : *m) { all.push_back(k.first); std::string s = k.first;
		switch(g.below(4)) { case 0: s.pop_back(); break; case 1: s += "x"; break; case 2: s[g.below(s.size())] ^= 32; break; default: s.insert(0, " "); }
		all.push_back(s); }
	all.push_back("");
	for(auto& s : all) {
		g_case += " name='" + s + "'";
		auto chk = [&](const char *key, const std::map<std::string,int>& m, std::function<int()> call) {
			int got = -1; try { got = call(); } catch(std::invalid_argument&) { got = -2; }
			auto it = m.find(s);
			if(got != (it == m.end() ? -2 : it->second)) fail(key, "'" + s + "' gives " + std::to_string(got) + " expected " + std::to_string(it == m.end() ? -2 : it->second)); };
		chk("solver-name", t, [&]() { return (int)f.solverTypeFromString(s); });
		chk("factinit-name", fi, [&]() { return (int)getFactInitFromString(s); });
		chk("applyinit-name", ai, [&]() { return (int)getApplyInitFromString(s); });
	}
}

static void onecase(Rng& g, long k)
{
	if(k % 50 == 49) { names(g); return; }
	static const int bss[] = {1, 4, 5, 1, 4, 5, 2, 3, 6, 7, 8, 0, -1};
	S.prectype = (BlastedSolverType)(k % 12);
	S.bs = bss[(k / 12) % 13]; S.blockstorage = g.flip() ? RowMajor : ColMajor; S.relax = g.flip(); S.thread_chunk_size = g.range(1, 400);
	S.scale = g.flip(); S.nbuildsweeps = g.range(1, 9); S.napplysweeps = g.range(10, 19); S.fact_inittype = (FactInit)g.below(4); S.apply_inittype = (ApplyInit)g.below(3); S.compute_precinfo = g.flip();
	const bool sup = S.prectype != BLASTED_EXTERNAL && (S.bs == 1 || (S.prectype != BLASTED_CSC_BGS && (S.bs == 4 || (S.bs == 5 && S.blockstorage == ColMajor))));
	const int mbs = S.bs < 1 ? 1 : S.bs;
	GenOpt o; o.dominant = true; Mat m = gen(g, g.range(1, 5), mbs, S.blockstorage == RowMajor, o);
	Buf<int> rp(m.rp), ci(m.ci), di(m.di); Buf<double> v(m.v);
	{ std::ostringstream s; s << " prectype=" << S.prectype << " bs=" << S.bs << " layout=" << (S.blockstorage == RowMajor ? "row" : "col") << " relax=" << S.relax << " scale=" << S.scale << " chunk=" << S.thread_chunk_size
		<< " nbuild=" << S.nbuildsweeps << " napply=" << S.napplysweeps << " finit=" << S.fact_inittype << " ainit=" << S.apply_inittype << " info=" << S.compute_precinfo << " n=" << m.n; g_case += s.str(); }
	SRFactory<double,int> f;
	std::unique_ptr<P> p;
	bool threw = false;
	try { p.reset(f.create_preconditioner(Stor(rp.p, ci.p, v.p, di.p, rp.p+1, m.n, m.nnz(), m.nnz(), mbs), S)); }
	catch(std::invalid_argument&) { threw = true; }
	if(!sup) { expect_true("unsupported-not-refused", threw); return; }
	expect_true("supported-refused", !threw);
	expect_true("null-operator", p.get() != nullptr);
	const bool ok = S.bs == 1 ? right1(p.get()) : S.bs == 5 ? rightb<5,ColMajor>(p.get()) : S.blockstorage == ColMajor ? rightb<4,ColMajor>(p.get()) : rightb<4,RowMajor>(p.get());
	expect_true("operator-kind", ok, std::string("wrong class ") + typeid(*p).name());
	expect_true("dimension", p->dim() == m.n * mbs, std::to_string(p->dim()));
	expect_true("matrix", p->mat.nbrows == m.n && p->mat.nnzb == m.nnz() && p->mat.browptr == rp.p && p->mat.bcolind == ci.p && p->mat.vals == v.p && p->mat.diagind == di.p && p->mat.browendptr == rp.p + 1);
	if(S.prectype == BLASTED_NO_PREC) {
		Vec x = rvec(g, m.n * mbs); Buf<double> xb(x), y(m.n * mbs); for(int i = 0; i < y.n; i++) y[i] = NAN;
		p->compute(); p->apply(xb.p, y.p); expect("identity", y.vec(), x, 0);
	}
	// foreign settings are refused
	SolverSettings fs; fs.prectype = BLASTED_JACOBI; fs.bs = 1; fs.blockstorage = ColMajor; fs.relax = false; fs.thread_chunk_size = 1;
	bool t2 = false; try { std::unique_ptr<P> q(f.create_preconditioner(Stor(rp.p, ci.p, v.p, di.p, rp.p+1, m.n, m.nnz(), m.nnz(), mbs), fs)); } catch(std::bad_cast&) { t2 = true; }
	expect_true("foreign-settings", t2);
}
DRIVER_MAIN(onecase)
