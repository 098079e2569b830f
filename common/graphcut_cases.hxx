// binary submodular models against exhaustive search, solved by GraphCut over the Boost max-flow algorithms
#pragma once
#include "solve.hxx"
#include <opengm/inference/graphcut.hxx>
#include <opengm/inference/auxiliary/minstcutboost.hxx>
using namespace gen;
using pbt::Ctx;

// a submodular table over k binary variables (first fastest): coefficients of the pairs and their sums with the cubic one are <= 0
static Func submodular(Ctx& c, size_t k, double unit, long amp) {
   Func f; f.kind = EXPL; f.shape.assign(k, 2); double c0 = c.sym(amp), a[3], b[3], d = 0; for (double& x : a) x = c.sym(amp); for (double& x : b) x = -(double)c.upTo(amp);
   if (k == 3) { double room = 1e9; for (double x : b) room = std::min(room, -x); d = c.flip() ? c.upTo((size_t)room) : -(double)c.upTo(amp); }
   Vec x(k, 0); do { double v = c0; for (size_t i = 0; i < k; ++i) v += a[i] * x[i]; if (k >= 2) v += b[0] * x[0] * x[1]; if (k == 3) v += b[1] * x[0] * x[2] + b[2] * x[1] * x[2] + d * x[0] * x[1] * x[2]; f.p.push_back(v * unit); } while (nextCoord(f.shape, x)); return f;
}
template<class T, class CT, opengm::BoostMaxFlowAlgorithm ALG, class ACC> static void cut(Ctx& c, bool mx, double unit, double scale) {
   Model m; size_t n = c.range(1, 8); m.labels.assign(n, 2); long amp = c.pick({1, 3, 20}); size_t k = c.upTo(12), cubic = 0;
   for (size_t i = 0; i < k; ++i) { size_t ord = std::min<size_t>(n, c.upTo(mx ? 2 : 3)); Func f = submodular(c, ord, unit, amp); if (mx) for (double& v : f.p) v = -v; Factor fa; fa.vars = c.subset(n, ord); cubic += ord == 3; if (c.flip(0.1) && !m.factors.empty() && m.factors.back().vars.size() == ord) fa.vars = m.factors.back().vars; fa.f = m.funcs.size(); m.funcs.push_back(f); m.factors.push_back(fa); }
   c.note(m.str()); c.labelIf(cubic, "third order"); Best b = bruteMin(m, false, mx); typedef typename GMs<T, opengm::Adder>::All GM; auto gm = buildAll<GM>(m);
   typedef opengm::MinSTCutBoost<size_t, CT, ALG> MC; typedef opengm::GraphCut<GM, ACC, MC> S; typename S::Parameter p(static_cast<T>(scale));
   if (c.flip(0.75)) { S s(gm, p); { std::vector<size_t> y; CHECK(s.arg(y) != opengm::NORMAL, "no labeling before inference"); } CHECK(s.infer() == opengm::NORMAL, "terminates normally"); Vec x = argOf(c, s, m, "graph cut"); CHECK_EQ(m.sum(x), b.value, "energy of the returned labeling " << pbt::vec(x)); CHECK_EQ((double)s.value(), b.value, "reported value"); }
   else { c.label("factors added one by one"); std::vector<size_t> dims(4, 0); for (auto& f : m.factors) ++dims[f.vars.size()]; while (dims.size() && !dims.back() && c.flip()) dims.pop_back(); S s(n, dims, p); for (size_t i : c.perm(m.factors.size())) s.addFactor(gm[i]); CHECK(s.infer() == opengm::NORMAL, "terminates normally"); std::vector<size_t> y; CHECK(s.arg(y) == opengm::NORMAL, "labeling"); CHECK_EQ(y.size(), n, "labels"); for (size_t v : y) CHECK(v < 2, "label"); CHECK_EQ(m.sum(y), b.value, "energy of the returned labeling " << pbt::vec(y)); }
   c.nontrivialIf(m.order() > 1 && m.nConfigs() > b.args.size());
}
template<opengm::BoostMaxFlowAlgorithm ALG> static void cutT(Ctx& c) {
   switch (c.upTo(4)) {
   case 0: cut<double, double, ALG, opengm::Minimizer>(c, false, 1, 1); break;
   case 1: cut<double, double, ALG, opengm::Maximizer>(c, true, 0.25, c.pick({1, 2, 4})); break;
   case 2: cut<double, long, ALG, opengm::Minimizer>(c, false, 0.25, 4); break;
   case 3: cut<int, int, ALG, opengm::Minimizer>(c, false, 1, c.pick({1, 3})); break;
   default: cut<float, float, ALG, opengm::Maximizer>(c, true, 1, 1); }
}
