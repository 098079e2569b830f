// Dual decomposition with subgradient steps, over every kind of decomposition.
#include "chains.hxx"
#include <opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx>
#include <opengm/inference/dynamicprogramming.hxx>
#include <opengm/inference/bruteforce.hxx>
struct DDCase { Pairwise q; bool exact = false; };
template<class P> bool ddParams(Ctx& c, P& p, const Model& m, bool trees) {
   p.maximalNumberOfIterations_ = c.pick({1, 5, 40}); p.stepsizeStride_ = c.pick({1.0, 0.1, 4.0}); p.stepsizeScale_ = c.pick({1.0, 0.5}); p.stepsizeExponent_ = c.pick({0.5, 1.0}); p.fillSubLabelings_ = c.flip(); p.minimalAbsAccuracy_ = c.pick({0.0, 1e-5, 1e-2}); p.minimalRelAccuracy_ = c.pick({0.0, 1e-5});
   int k = c.upTo(4); if (k == 1) p.stepsizePrimalDualGapStride_ = true; if (k == 2) p.stepsizeNormalizedSubgradient_ = true; if (k == 3) p.useAdaptiveStepsize_ = true; if (k == 4) p.useProjectedAdaptiveStepsize_ = true; static const char* step[] = {"plain", "gap", "normalized", "adaptive", "projected adaptive"}; c.label(step[k]);
   std::string s = step[k]; bool tight = false; int d = trees ? c.upTo(1) : 2 + c.upTo(5);
   auto blocks = [&](bool cover) { std::vector<std::set<size_t> > b(c.range(1, 4)); for (size_t v = 0; v < m.n(); ++v) { size_t k = 1 + c.flip(0.3); while (k--) b[c.upTo(b.size() - 1)].insert(v); } if (cover) for (auto& f : m.factors) { std::set<size_t> w(f.vars.begin(), f.vars.end()); bool in = false; for (auto& x : b) in = in || std::includes(x.begin(), x.end(), w.begin(), w.end()); if (!in) b[c.upTo(b.size() - 1)].insert(w.begin(), w.end()); } for (auto& x : b) if (x.empty()) x.insert(c.upTo(m.n() - 1)); for (auto& x : b) s += " " + pbt::vec(Vec(x.begin(), x.end())); p.subVariables_ = b; };
   switch (d) {
   case 0: p.decompositionId_ = P::TREE; s += " tree"; tight = true; break;
   case 1: p.decompositionId_ = P::SPANNINGTREES; s += " spanning trees"; tight = true; break;
   case 2: p.decompositionId_ = P::BLOCKS; p.numberOfBlocks_ = c.range(1, m.n() + 1); s += pbt::str(" blocks ", p.numberOfBlocks_); break;
   case 3: { size_t o = m.order(); if (o > 2) { p.decompositionId_ = P::BLOCKS; break; } p.decompositionId_ = P::KFANS; p.k_ = c.range(1, m.n() + 1); s += pbt::str(" fans ", p.k_); break; }
   case 4: p.decompositionId_ = P::MANUALVARCLOSE; s += " closed"; blocks(false); break;
   case 5: p.decompositionId_ = P::MANUALVAROPEN; s += " open"; blocks(true); break;
   default: { p.decompositionId_ = P::MANUAL; s += " manual"; std::vector<Vec> sub(c.range(1, 5)); for (size_t f = 0; f < m.factors.size(); ++f) for (size_t k : c.subset(sub.size(), c.range(1, std::min<size_t>(sub.size(), 2)))) sub[k].push_back(f); std::vector<Vec> u; for (auto& x : sub) if (x.size()) u.push_back(x); for (auto& x : u) s += " " + pbt::vec(x); p.subFactors_ = u; }
   }
   c.note(s); c.note(pbt::str("iterations ", p.maximalNumberOfIterations_, " stride ", p.stepsizeStride_, " scale ", p.stepsizeScale_, " exponent ", p.stepsizeExponent_, p.fillSubLabelings_ ? " fill" : "", " accuracy ", p.minimalAbsAccuracy_, " ", p.minimalRelAccuracy_)); return tight;
}
inline Pairwise ddModel(Ctx& c) {
   Pairwise q = genPairwise(c, c.pick({CHAIN, TREE, GRID, ANY}), true, dualOpt(c)); Model& m = q.m;
   if (c.flip(0.4)) { std::vector<Factor> keep; for (auto& f : m.factors) if (f.vars.size() != 1 || c.flip()) keep.push_back(f); m.factors = keep; c.label("missing unaries"); }     // unary factors are optional here
   if (c.flip(0.3) && m.factors.size()) { m.factors.push_back(m.factors[c.upTo(m.factors.size() - 1)]); if (m.factors.back().vars.size() == 2) q.tree = false; c.label("repeated factor"); }
   if (q.edges) { Vec id(m.n()); for (size_t v = 0; v < m.n(); ++v) id[v] = v; } return q;
}
template<template<class> class BLOCK, class DUAL, class ACC> void dual(Ctx& c, bool trees) {
   typedef BLOCK<DUAL> B; typedef typename opengm::DualDecompositionBase<GM, B>::SubGmType Sub; Pairwise q = ddModel(c); Model& m = q.m; c.note(m.str()); auto gm = buildAll<GM>(m);
   auto go = [&](auto* inf) { typedef typename std::remove_pointer<decltype(inf)>::type INF; typedef opengm::DualDecompositionSubGradient<GM, INF, B> S; typename S::Parameter p; bool tight = ddParams(c, p, m, trees); if (!trees && p.decompositionId_ == S::Parameter::MANUAL) { std::vector<bool> cov(m.n()); for (auto& f : m.factors) for (size_t v : f.vars) cov[v] = true; for (bool b : cov) if (!b) throw pbt::Discard{}; }
      S s(gm, p); judge(c, s, q, tight ? 1e-6 : 0, "DualDecompositionSubGradient"); if (c.flip(0.3)) { c.label("again"); judge(c, s, q, tight ? 1e-6 : 0, "DualDecompositionSubGradient again"); } };
   if (trees) go((opengm::DynamicProgramming<Sub, ACC>*)0); else go((opengm::Bruteforce<Sub, ACC>*)0);
}
