// Proposal generators and the search that fuses their proposals.
#include "pairwise.hxx"
#include <opengm/inference/lazyflipper.hxx>
#include <opengm/inference/fusion_based_inf.hxx>
using namespace gen;
using pbt::Ctx;
template<class G> struct Of {
   static Model model(Ctx& c) { Opt o; o.maxVars = 7; o.maxLabels = 5; o.maxOrder = 3; o.maxFactors = 12; o.maxConfigs = 3000; return genModel(c, o); }
   static void params(Ctx&, typename G::Parameter&) {}
};
template<class GM, class ACC> struct Of<opengm::proposal_gen::UpDownGen<GM, ACC> > { typedef opengm::proposal_gen::UpDownGen<GM, ACC> G; static Model model(Ctx& c) { return Of<opengm::proposal_gen::RandomGen<GM, ACC> >::model(c); } static void params(Ctx& c, typename G::Parameter& p) { p.startDirection_ = c.pick({std::string("up"), std::string("down"), std::string("random")}); c.note(p.startDirection_); } };
template<class GM, class ACC> struct Of<opengm::proposal_gen::NonUniformRandomGen<GM, ACC> > { typedef opengm::proposal_gen::NonUniformRandomGen<GM, ACC> G; static Model model(Ctx& c) { return Of<opengm::proposal_gen::RandomGen<GM, ACC> >::model(c); } static void params(Ctx& c, typename G::Parameter& p) { p.temp_ = c.pick({1.0f, 0.1f, 5.0f}); } };
inline Model gridModel(Ctx& c) { Opt o; Pairwise q; do { q = genPairwise(c, GRID, false, o); bool same = true; for (size_t l : q.m.labels) same = same && l == q.m.labels[0]; if (same) return q.m; } while (c.flip(0.95)); throw pbt::Discard{}; }
template<class GM, class ACC> struct Of<opengm::proposal_gen::BlurGen<GM, ACC> > { typedef opengm::proposal_gen::BlurGen<GM, ACC> G; static Model model(Ctx& c) { return gridModel(c); } static void params(Ctx& c, typename G::Parameter& p) { p.sigma_ = c.pick({0.5, 1.0, 3.0, 20.0}); c.note(pbt::str("sigma ", p.sigma_)); } };
template<class GM, class ACC> struct Of<opengm::proposal_gen::EnergyBlurGen<GM, ACC> > { typedef opengm::proposal_gen::EnergyBlurGen<GM, ACC> G; static Model model(Ctx& c) { return gridModel(c); } static void params(Ctx& c, typename G::Parameter& p) { p.sigma_ = c.pick({0.5, 1.0, 3.0, 20.0}); p.useLocalMargs_ = c.flip(); p.temp_ = c.pick({1.0, 0.2}); c.note(pbt::str("sigma ", p.sigma_, p.useLocalMargs_ ? " local marginals" : "")); } };
template<class GM, class ACC> struct Of<opengm::proposal_gen::DynamincGen<GM, ACC> > { typedef opengm::proposal_gen::DynamincGen<GM, ACC> G; static Model model(Ctx& c) { return gridModel(c); } static void params(Ctx& c, typename G::Parameter& p) { p.gen_ = (typename G::GeneratorType)c.upTo(7); c.note(pbt::str("generator ", (int)p.gen_)); } };
template<class S> struct Follow {
   Ctx& c; const Model& m; double opt, last; size_t steps = 0, ends = 0, stopAt = 0;
   void see(S& s) { double v = s.value(); CHECK(v <= last, "the value rises from " << last << " to " << v << " in step " << steps); CHECK(v >= opt - 1e-9, "value " << v << " below the optimum " << opt); std::vector<typename S::LabelType> x; s.arg(x); CHECK_NEAR(m.sum(Vec(x.begin(), x.end())), v, 1e-9, "value of the current labeling in step " << steps); last = v; }
   void begin(S& s) { see(s); } size_t operator()(S& s) { ++steps; see(s); return steps == stopAt ? opengm::visitors::VisitorReturnFlag::StopInfTimeout : opengm::visitors::VisitorReturnFlag::ContinueInf; } void end(S& s) { see(s); ++ends; } void addLog(const std::string&) {} void log(const std::string&, double) {}
};
// (maximising generators exist only as templates: the search below minimises, and maximises with the negated model)
template<template<class, class> class GEN, bool expands, bool swaps> void fusion(Ctx& c) {
   typedef SumGMs::All GM; typedef opengm::Minimizer ACC; typedef GEN<GM, ACC> G; typedef opengm::FusionBasedInf<GM, G> S; typedef typename G::Parameter P; Model m = Of<G>::model(c); P p = P(); Of<G>::params(c, p); c.note(m.str()); auto gm = buildAll<GM>(m); size_t n = m.n(), L = 0; for (size_t l : m.labels) L = std::max(L, l); double opt = bruteMin(m).value;
   auto label = [&] { std::vector<typename GM::LabelType> x; for (size_t l : m.labels) x.push_back(c.upTo(l - 1)); return x; };
   { G g(gm, p); auto x = label(); decltype(x) y(n, 0), y0; size_t steps = c.range(1, 12); std::set<std::vector<size_t> > seen; std::vector<decltype(x)> first; CHECK(g.defaultNumStopIt() <= 1000, "default number of steps");
     for (size_t s = 0; s < steps; ++s) { if (c.flip(0.3)) x = label(); auto x0 = x; g.getProposal(x, y); CHECK(x == x0, "the current labeling changed"); CHECK_EQ(y.size(), n, "size of the proposal"); size_t diff = 0; for (size_t v = 0; v < n; ++v) { CHECK(y[v] < m.labels[v], "proposes label " << y[v] << " for variable " << v << " with " << m.labels[v] << " labels"); diff += x[v] != y[v]; }
       if (expands) { size_t alpha = s % L; for (size_t v = 0; v < n; ++v) CHECK_EQ(size_t(y[v]), alpha < m.labels[v] ? alpha : size_t(x[v]), "expansion of label " << alpha << " at variable " << v); }
       if constexpr (swaps) { size_t a = g.currentAlpha(), b = g.currentBeta(); if (L > 1) { CHECK(a < L && b < L && a != b, "swap of " << a << " and " << b); seen.insert({std::min(a, b), std::max(a, b)}); } for (size_t v = 0; v < n; ++v) { size_t e = L > 1 ? (x[v] == a && b < m.labels[v] ? b : x[v] == b && a < m.labels[v] ? a : x[v]) : x[v]; CHECK_EQ(size_t(y[v]), e, "swap of " << a << " and " << b << " at variable " << v); } if (L > 1 && s + 1 == L * (L - 1)) CHECK_EQ(seen.size(), L * (L - 1) / 2, "pairs swapped in a round"); }
       c.labelIf(diff > 1, "proposes changes"); }
     if (expands || swaps) { g.reset(); y0 = y; G h(gm, p); g.getProposal(x, y); h.getProposal(x, y0); CHECK(y == y0, "the first proposal after reset()"); } }
   typename S::Parameter sp; sp.proposalParam_ = p; sp.fusionParam_ = typename S::FusionParameter(c.flip() ? S::FusionMover::DefaulFusion : S::FusionMover::LazyFlipperFusion, c.range(1, 8)); sp.numIt_ = c.pick({1000, 0, 3}); sp.numStopIt_ = c.upTo(4); S s(gm, sp); CHECK_NEAR(s.value(), gm.evaluate([&] { std::vector<typename GM::LabelType> x; s.arg(x); return x; }()), 1e-9, "value before inference");
   double start = s.value(); if (c.flip()) { auto x = label(); s.setStartingPoint(x.begin()); start = gm.evaluate(x); CHECK(s.value() == start, "value of the starting point"); }
   for (int run = 0; run < 2; ++run) { Follow<S> f{c, m, opt, start}; if (c.flip(0.2)) f.stopAt = c.range(1, 4); s.infer(f); CHECK_EQ(f.ends, size_t(1), "calls of end()"); CHECK(!f.stopAt || f.steps <= f.stopAt, "steps after the visitor's stop"); CHECK(s.value() <= start, "worse than the start"); start = s.value(); Vec x = argOf(c, s, m, "FusionBasedInf"); CHECK_NEAR(m.sum(x), s.value(), 1e-9, "value of the result");
      if (expands && !f.stopAt && sp.numIt_ == 1000 && (sp.numStopIt_ == 0 || sp.numStopIt_ >= L) && sp.fusionParam_.maxSubgraphSize_ >= n) for (size_t a = 0; a < L; ++a) for (size_t k = 0; k < size_t(1) << n; ++k) { Vec y = x; for (size_t v = 0; v < n; ++v) if ((k >> v & 1) && a < m.labels[v]) y[v] = a; CHECK(m.sum(y) >= s.value() - 1e-9, "the expansion of label " << a << " to " << pbt::vec(y) << " improves on " << pbt::vec(x)); }
      c.labelIf(f.steps > 2, "several fusions"); if (!c.flip(0.3)) break; }
   c.nontrivialIf(m.order() > 1 && m.nConfigs() > 3);
}
