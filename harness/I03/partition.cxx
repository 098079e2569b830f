#define WITH_BOOST
#include "local.hxx"
#include <opengm/inference/partition-move.hxx>
// correlation clustering: one label per variable at least, Potts factors only
PROP(partition_move, 2500, 80000) {
   typedef SumGMs::All GM; typedef opengm::PartitionMove<GM, opengm::Minimizer> S; Model m; size_t n = c.range(1, 9), L = n + (c.flip(0.2) ? c.upTo(3) : 0); m.labels.assign(n, L); size_t k = c.upTo(20); 
   for (size_t i = 0; i < k; ++i) { Func f; Factor fa; if (n < 2 || c.flip(0.05)) { f.kind = EXPL; f.p = {(double)c.sym(5)}; } else { fa.vars = c.subset(n, 2); f.shape = Vec(2, L); double a = c.flip(0.2) ? c.sym(3) : 0, b = c.sym(6); if (c.flip()) { f.kind = POTTS; f.p = {a, b}; } else { f.kind = EXPL; Vec x(2, 0); do f.p.push_back(x[0] == x[1] ? a : b); while (nextCoord(f.shape, x)); } } fa.f = m.funcs.size(); m.funcs.push_back(f); m.factors.push_back(fa); }
   c.note(m.str()); auto gm = buildAll<GM>(m); S s(gm); Vec start = argOf(c, s, m, "start"); Vec x = finish(c, s, m, start, false, false, "partition move"); double v = m.sum(x);
   // no single node is better off in another cluster that its own one touches or in a cluster of its own
   std::vector<bool> used(L + 1); for (size_t l : x) used[l] = true; size_t fresh = 0; while (fresh < L && used[fresh]) ++fresh;
   auto adj = adjacency(m); auto score = [&](const Vec& y) { double t = 0; for (size_t i = 0; i < m.factors.size(); ++i) { const Func& f = m.funcs[m.factors[i].f]; if (m.factors[i].vars.empty()) { t += f.p[0]; continue; } t += f.eval(y[m.factors[i].vars[0]] == y[m.factors[i].vars[1]] ? Vec{0, 0} : Vec{0, 1}); } return t; };
   CHECK_EQ(score(x), v, "labels of the result"); for (size_t i = 0; i < n; ++i) { Vec y(x); for (size_t l = 0; l <= fresh; ++l) { y[i] = l == fresh ? L + 1 : l; CHECK(score(y) >= v, "moving node " << i << " of " << pbt::vec(x) << " to cluster " << l << " improves " << v << " to " << score(y)); } }
   c.nontrivialIf(m.order() > 1 && n > 3);
}
