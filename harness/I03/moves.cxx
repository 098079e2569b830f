#include "local.hxx"
#include <opengm/inference/graphcut.hxx>
#include <opengm/inference/auxiliary/minstcutboost.hxx>
#include <opengm/inference/alphaexpansion.hxx>
#include <opengm/inference/alphabetaswap.hxx>
// pairwise tables for which every expansion (metric) or swap (semi-metric) move is submodular
static Func pairTable(Ctx& c, size_t L, bool metric) {
   Func f; f.kind = EXPL; f.shape = Vec(2, L); std::vector<std::vector<double> > d(L, std::vector<double>(L));
   for (size_t i = 0; i < L; ++i) for (size_t j = 0; j < L; ++j) d[i][j] = i == j ? 0 : (double)c.upTo(12);
   if (metric) for (size_t k = 0; k < L; ++k) for (size_t i = 0; i < L; ++i) for (size_t j = 0; j < L; ++j) d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
   double off = c.flip(0.3) ? c.sym(5) : 0; Vec x(2, 0); do { f.p.push_back(d[x[0]][x[1]] + off); } while (nextCoord(f.shape, x)); return f;
}
static Model movesModel(Ctx& c, bool metric, bool mx) {
   Model m; size_t n = c.range(1, 6), L = c.range(1, 4); while (std::pow(L, n) > 800) --n; m.labels.assign(n, L); Opt o; size_t k = c.upTo(14);
   for (size_t i = 0; i < k; ++i) { size_t ord = std::min<size_t>(n, c.weighted({1, 6, 10})); Func f; Vec vars = c.subset(n, ord); 
      if (ord < 2) f = genFunc(c, o, Vec(ord, L)); else switch (c.upTo(3)) { case 0: f.kind = POTTS; f.shape = Vec(2, L); f.p = {0, (double)c.upTo(9)}; break; case 1: f.kind = TABSD; f.shape = Vec(2, L); f.p = {(double)c.range(0, 3), (double)c.upTo(5)}; break; default: f = pairTable(c, L, metric); }
      if (mx) { if (f.kind == TABSD || f.kind == TSQD) f.p[1] = -f.p[1]; else for (double& v : f.p) v = -v; }
      Factor fa; fa.vars = vars; fa.f = m.funcs.size(); m.funcs.push_back(f); m.factors.push_back(fa); }
   return m;
}
template<class ACC, opengm::BoostMaxFlowAlgorithm ALG> static void expansion(Ctx& c, bool mx) {
   typedef SumGMs::All GM; typedef opengm::GraphCut<GM, ACC, opengm::MinSTCutBoost<size_t, double, ALG> > CUT; typedef opengm::AlphaExpansion<GM, CUT> S; Model m = movesModel(c, true, mx); c.note(m.str()); auto gm = buildAll<GM>(m); size_t n = m.n(), L = m.labels[0]; Vec start(n, 0); typename S::Parameter p; typedef typename S::Parameter P;
   switch (c.upTo(3)) { case 0: break; case 1: p.labelInitialType_ = P::RANDOM_LABEL; p.randSeedLabel_ = c.upTo(100); break; case 2: p.labelInitialType_ = P::LOCALOPT_LABEL; break; default: p.labelInitialType_ = P::EXPLICIT_LABEL; start = genStart(c, m); p.label_ = start; }
   switch (c.upTo(2)) { case 0: break; case 1: p.orderType_ = P::RANDOM_ORDER; p.randSeedOrder_ = c.upTo(100); break; default: p.orderType_ = P::EXPLICIT_ORDER; p.labelOrder_ = c.perm(L); }
   S s(gm, p); if (c.flip(0.3)) { start = genStart(c, m); s.setStartingPoint(start.begin()); } else { Vec x = argOf(c, s, m, "start"); if (p.labelInitialType_ == P::EXPLICIT_LABEL || p.labelInitialType_ == P::DEFAULT_LABEL) CHECK(x == start, "initial labeling");
      if (p.labelInitialType_ == P::LOCALOPT_LABEL) { // optimal for one of the unary factors of the variable
         for (size_t v = 0; v < n; ++v) { bool any = false, ok = false; for (size_t i = 0; i < m.factors.size(); ++i) if (m.factors[i].vars == Vec(1, v)) { any = true; bool best = true; Vec y(n, 0); for (y[v] = 0; y[v] < L; ++y[v]) best = best && !better(m.factorValue(i, y), m.factorValue(i, x), mx); ok = ok || best; } CHECK(!any || ok, "initial label of variable " << v << " is not locally optimal: " << pbt::vec(x)); } }
      start = x; }
   c.note("start " + pbt::vec(start)); Vec x = finish(c, s, m, start, false, mx, "alpha-expansion"); double v = m.sum(x);
   for (size_t a = 0; a < L; ++a) for (size_t mask = 1; mask < (size_t(1) << n); ++mask) { Vec y(x); for (size_t i = 0; i < n; ++i) if ((mask >> i) & 1) y[i] = a; CHECK(!better(m.sum(y), v, mx), "expansion of label " << a << " improves " << pbt::vec(x) << " to " << pbt::vec(y)); }
   if (c.flip(0.3)) { s.reset(); s.infer(); argOf(c, s, m, "after reset"); }
   c.nontrivialIf(m.order() > 1 && L > 2);
}
template<class ACC, opengm::BoostMaxFlowAlgorithm ALG> static void swapMoves(Ctx& c, bool mx) {
   typedef SumGMs::All GM; typedef opengm::GraphCut<GM, ACC, opengm::MinSTCutBoost<size_t, double, ALG> > CUT; typedef opengm::AlphaBetaSwap<GM, CUT> S; Model m = movesModel(c, false, mx); c.note(m.str()); auto gm = buildAll<GM>(m); size_t n = m.n(), L = m.labels[0]; Vec start(n, 0); S s(gm); if (c.flip(0.7)) { start = genStart(c, m); s.setStartingPoint(start.begin()); } c.note("start " + pbt::vec(start));
   Vec x = finish(c, s, m, start, false, mx, "alpha-beta-swap"); double v = m.sum(x);
   for (size_t a = 0; a < L; ++a) for (size_t b = a + 1; b < L; ++b) { Vec idx; for (size_t i = 0; i < n; ++i) if (x[i] == a || x[i] == b) idx.push_back(i); for (size_t mask = 0; mask < (size_t(1) << idx.size()); ++mask) { Vec y(x); for (size_t i = 0; i < idx.size(); ++i) y[idx[i]] = (mask >> i) & 1 ? a : b; CHECK(!better(m.sum(y), v, mx), "swap of labels " << a << " and " << b << " improves " << pbt::vec(x) << " to " << pbt::vec(y)); } }
   if (c.flip(0.3)) { s.reset(); Vec z(n, 0); finish(c, s, m, z, false, mx, "after reset"); }
   c.nontrivialIf(m.order() > 1 && L > 2);
}
PROP(alpha_expansion, 3000, 100000) { if (c.flip()) expansion<opengm::Minimizer, opengm::KOLMOGOROV>(c, false); else expansion<opengm::Maximizer, opengm::PUSH_RELABEL>(c, true); }
PROP(alpha_beta_swap, 3000, 100000) { if (c.flip()) swapMoves<opengm::Minimizer, opengm::PUSH_RELABEL>(c, false); else swapMoves<opengm::Maximizer, opengm::KOLMOGOROV>(c, true); }
