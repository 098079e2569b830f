// FLAGS: HDF5
// TOOLS: opengm_min_sum
#define WITH_BOOST
#include "cli.hxx"
#include <opengm/inference/graphcut.hxx>
#include <opengm/inference/qpbo.hxx>
#include <opengm/inference/auxiliary/minstcutboost.hxx>
#include <opengm/inference/alphaexpansion.hxx>
#include <opengm/inference/alphabetaswap.hxx>
using namespace cli;
typedef opengm::Minimizer ACC; typedef SumGM GM;
static Model potts(Ctx& c, size_t L) {
   Model m; size_t n = c.range(1, 6); while (n > 1 && std::pow(L, n) > 800) --n; m.labels.assign(n, L); size_t k = c.upTo(12); Opt o; o.kinds = { EXPL };
   for (size_t i = 0; i < k; ++i) { size_t ord = std::min<size_t>(n, c.weighted({ 1, 6, 10 })); Func f; if (ord < 2) f = genFunc(c, o, Vec(ord, L)); else { f.kind = c.flip() ? POTTS : POTTSN; f.shape = Vec(2, L); f.p = { (double)c.sym(3), 0 }; f.p[1] = f.p[0] + (double)c.upTo(8); } Factor fa; fa.vars = c.subset(n, ord); fa.f = m.funcs.size(); m.funcs.push_back(f); m.factors.push_back(fa); }
   return m;
}
template<opengm::BoostMaxFlowAlgorithm A> using Flow = opengm::MinSTCutBoost<size_t, double, A>;
// the flow algorithm: 0 is not compiled in, 1..3 are
static int flow(Ctx& c, Run& r) { int a = (int)c.weighted({ 1, 4, 4, 4 }); if (a == 1 && c.flip()) return a; /* the default */ r.add(c.flip() ? "-mf" : "--maxflow", a == 0 ? "KOLMOGOROV" : a == 1 ? "BOOST_KOLMOGOROV" : a == 2 ? "BOOST_PUSH_RELABEL" : "BOOST_EDMONDS_KARP"); return a; }
template<template<class> class T, class F> static void byFlow(int a, F fn) {
   typedef opengm::GraphCut<GM, ACC, Flow<opengm::KOLMOGOROV> > K; typedef opengm::GraphCut<GM, ACC, Flow<opengm::PUSH_RELABEL> > P; typedef opengm::GraphCut<GM, ACC, Flow<opengm::EDMONDS_KARP> > E;
   if (a == 2) fn((T<P>*)0); else if (a == 3) fn((T<E>*)0); else fn((T<K>*)0);
}
template<class C> using Self = C;
template<class C> using Exp = opengm::AlphaExpansion<GM, C>;
template<class C> using Swp = opengm::AlphaBetaSwap<GM, C>;
#define NEED(a) if (!(a)) throw std::runtime_error("not compiled in")
PROP(graph_cut, 260, 6000) {
   Model m = potts(c, 2); c.note(m.str()); Input in; Run r; r.alg = "GRAPHCUT"; int a = flow(c, r); double scale = 1; if (c.flip(0.3)) { scale = c.pick({ 1.0, 2.0, 8.0 }); r.add("--scale", num(scale)); } Flags f; f.exact = true;
   byFlow<Self>(a, [&](auto* s) { typedef std::remove_pointer_t<decltype(s)> S; sum<S>(c, m, in, r, f, [&](const GM& g) { NEED(a); typename S::Parameter p; p.scale_ = scale; return new S(g, p); }); });
}
PROP(alpha_expansion, 260, 6000) {
   Model m = potts(c, c.range(1, 4)); c.note(m.str()); Input in; Run r; r.alg = "ALPHAEXPANSION"; int a = flow(c, r), li = (int)c.upTo(3), oi = (int)c.upTo(2); size_t steps = 1000, seedO = 0, seedL = 0; std::vector<size_t> lab, ord; if (c.flip(0.4)) { steps = c.upTo(5); r.add("--maxIt", std::to_string(steps)); } 
   if (li || c.flip()) r.add("--labelInitialType", li == 0 ? "DEFAULT" : li == 1 ? "RANDOM" : li == 2 ? "LOCALOPT" : "EXPLICIT"); if (oi || c.flip()) r.add("--orderType", oi == 0 ? "DEFAULT" : oi == 1 ? "RANDOM" : "EXPLICIT"); if (oi == 1) { seedO = c.range(1, 100); r.add("--randSeedOrder", std::to_string(seedO)); } if (li == 1) { seedL = c.range(1, 100); r.add("--randSeedLabel", std::to_string(seedL)); } if (li == 3) { lab = start(c, m); r.add("--label", in.vector(c, "label", lab)); } if (oi == 2) { ord = c.perm(m.labels[0]); r.add("--labelorder", in.vector(c, "order", ord)); }
   byFlow<Exp>(a, [&](auto* s) { typedef std::remove_pointer_t<decltype(s)> S; typedef typename S::Parameter P; sum<S>(c, m, in, r, Flags(), [&](const GM& g) { NEED(a); P p; p.maxNumberOfSteps_ = steps; p.labelInitialType_ = li == 0 ? P::DEFAULT_LABEL : li == 1 ? P::RANDOM_LABEL : li == 2 ? P::LOCALOPT_LABEL : P::EXPLICIT_LABEL; p.orderType_ = oi == 0 ? P::DEFAULT_ORDER : oi == 1 ? P::RANDOM_ORDER : P::EXPLICIT_ORDER; p.randSeedOrder_ = seedO; p.randSeedLabel_ = seedL; p.label_ = lab; p.labelOrder_ = ord; return new S(g, p); }); });
}
PROP(alpha_beta_swap, 200, 5000) {
   Model m = potts(c, c.range(1, 4)); c.note(m.str()); Input in; Run r; r.alg = "ALPHABETASWAP"; int a = flow(c, r); size_t it = 1000; if (c.flip(0.4)) { it = c.upTo(4); r.add("--maxIt", std::to_string(it)); }
   byFlow<Swp>(a, [&](auto* s) { typedef std::remove_pointer_t<decltype(s)> S; sum<S>(c, m, in, r, Flags(), [&](const GM& g) { NEED(a); typename S::Parameter p; p.maxNumberOfIterations_ = it; return new S(g, p); }); });
}
