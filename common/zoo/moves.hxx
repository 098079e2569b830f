#define WITH_BOOST
#include "zoo.hxx"
#include <opengm/inference/graphcut.hxx>
#include <opengm/inference/qpbo.hxx>
#include <opengm/inference/auxiliary/minstcutboost.hxx>
#include <opengm/inference/alphaexpansion.hxx>
#include <opengm/inference/alphabetaswap.hxx>
#include <opengm/inference/partition-move.hxx>
using namespace zoo;
// Potts models: every expansion and swap is submodular
static Model potts(Ctx& c, size_t L, bool mx, bool unary) {
   Model m; size_t n = c.range(1, 6); while (n > 1 && std::pow(L, n) > 3200) --n; m.labels.assign(n, L); size_t k = c.upTo(12); Opt o;
   for (size_t i = 0; i < k; ++i) { size_t ord = std::min<size_t>(n, unary ? c.weighted({1, 6, 10}) : 2); if (ord < 2 && !unary) continue; Func f; if (ord < 2) f = genFunc(c, o, Vec(ord, L)); else { f.kind = c.flip() ? POTTS : POTTSN; f.shape = Vec(2, L); f.p = {(double)c.sym(3), 0}; f.p[1] = unary ? f.p[0] + (mx ? -1 : 1) * (double)c.upTo(8) : c.sym(6); }
      Factor fa; fa.vars = c.subset(n, ord); fa.f = m.funcs.size(); m.funcs.push_back(f); m.factors.push_back(fa); }
   return m;
}
template<class ACC, opengm::BoostMaxFlowAlgorithm ALG> static void expansion(Ctx& c, bool mx) {
   typedef SumGMs::All GM; typedef opengm::GraphCut<GM, ACC, opengm::MinSTCutBoost<size_t, double, ALG> > CUT; typedef opengm::AlphaExpansion<GM, CUT> S; typedef typename S::Parameter P; Flags f; f.mx = mx; f.reset = true; Model m = potts(c, c.range(1, 4), mx, true); c.note(m.str()); auto gm = buildAll<GM>(m); P p;
   switch (c.upTo(3)) { case 0: break; case 1: p.labelInitialType_ = P::RANDOM_LABEL; p.randSeedLabel_ = c.upTo(100); break; case 2: p.labelInitialType_ = P::LOCALOPT_LABEL; break; default: p.labelInitialType_ = P::EXPLICIT_LABEL; p.label_ = start(c, m); }
   switch (c.upTo(2)) { case 0: break; case 1: p.orderType_ = P::RANDOM_ORDER; p.randSeedOrder_ = c.upTo(100); break; default: p.orderType_ = P::EXPLICIT_ORDER; p.labelOrder_ = c.perm(m.labels[0]); }
   if (c.flip(0.3)) p.maxNumberOfSteps_ = c.upTo(5);
   ZOO<S>(c, m, gm, [&](const GM& g) { return new S(g, p); }, f, "AlphaExpansion");
}
PROP(alpha_expansion, 800, 25000) { if (c.flip()) expansion<opengm::Minimizer, opengm::KOLMOGOROV>(c, false); else expansion<opengm::Maximizer, opengm::PUSH_RELABEL>(c, true); }
template<class ACC, opengm::BoostMaxFlowAlgorithm ALG> static void swapMoves(Ctx& c, bool mx) {
   typedef SumGMs::All GM; typedef opengm::GraphCut<GM, ACC, opengm::MinSTCutBoost<size_t, double, ALG> > CUT; typedef opengm::AlphaBetaSwap<GM, CUT> S; Flags f; f.mx = mx; f.reset = true; Model m = potts(c, c.range(1, 4), mx, true); c.note(m.str()); auto gm = buildAll<GM>(m); typename S::Parameter p; if (c.flip(0.3)) p.maxNumberOfIterations_ = c.upTo(4);
   bool given = c.flip(); std::vector<size_t> st = start(c, m); if (given) f.reset = false;
   ZOO<S>(c, m, gm, [&](const GM& g) { S* s = new S(g, p); if (given) s->setStartingPoint(st.begin()); return s; }, f, "AlphaBetaSwap");
}
PROP(alpha_beta_swap, 800, 25000) { if (c.flip()) swapMoves<opengm::Minimizer, opengm::PUSH_RELABEL>(c, false); else swapMoves<opengm::Maximizer, opengm::KOLMOGOROV>(c, true); }
PROP(partition_move, 800, 25000) {
   typedef SumGMs::All GM; typedef opengm::PartitionMove<GM, opengm::Minimizer> S; Flags f; Model m; do { m = potts(c, 5, false, false); } while (m.n() > 5); c.note(m.str()); auto gm = buildAll<GM>(m); typename S::Parameter p;
   ZOO<S>(c, m, gm, [&](const GM& g) { return new S(g, p); }, f, "PartitionMove");
}
template<class ACC, opengm::BoostMaxFlowAlgorithm ALG> static void cut(Ctx& c, bool mx) {
   typedef SumGMs::All GM; typedef opengm::GraphCut<GM, ACC, opengm::MinSTCutBoost<size_t, double, ALG> > S; Flags f; f.mx = mx; f.early = false; Model m = potts(c, 2, mx, true); c.note(m.str()); auto gm = buildAll<GM>(m); typename S::Parameter p;
   ZOO<S>(c, m, gm, [&](const GM& g) { return new S(g, p); }, f, "GraphCut");
}
PROP(graph_cut, 800, 25000) { if (c.flip()) cut<opengm::Minimizer, opengm::KOLMOGOROV>(c, false); else cut<opengm::Maximizer, opengm::EDMONDS_KARP>(c, true); }
PROP(qpbo, 800, 25000) {
   typedef SumGMs::All GM; typedef opengm::QPBO<GM, opengm::MinSTCutBoost<size_t, double, opengm::PUSH_RELABEL> > S; Flags f; f.early = false; Opt o = opts(c, f); o.binary = true; o.maxOrder = 2; o.dyadic = true; Model m = genModel(c, o); c.note(m.str()); auto gm = buildAll<GM>(m); typename S::Parameter p;
   ZOO<S>(c, m, gm, [&](const GM& g) { return new S(g, p); }, f, "QPBO");
}
