#pragma once
#include "solve.hxx"
#include <opengm/inference/astar.hxx>
using namespace gen;
using pbt::Ctx;

static Opt opts(Ctx& c, bool mult) { Opt o; o.maxVars = 6; o.maxLabels = 4; o.maxFactors = 10; o.maxConfigs = 300; o.maxOrder = c.pick({2, 3, 3, 4}); o.positive = mult; o.dyadic = c.flip(0.3); if (c.flip(0.2)) o.amp = 1; o.order0 = c.flip(0.3); return o; }

template<class OP, class ACC> static void astar(Ctx& c, bool mult, bool mx) {
   Opt o = opts(c, mult); o.zeroValue = mult && mx; Model m = genModel(c, o); c.note(m.str()); DVec sorted = sortedValues(m, mult, mx); typedef GMs<double, OP> G; typedef typename G::All GM; auto gm = buildAll<GM>(m); size_t n = m.n();
   typedef opengm::AStar<GM, ACC> S; typename S::Parameter p; p.heuristic_ = c.pick({S::Parameter::DEFAULTHEURISTIC, S::Parameter::FASTHEURISTIC, S::Parameter::STANDARDHEURISTIC}); p.numberOfOpt_ = c.flip(0.4) ? 1 : c.small(1, 20);
   if (c.flip()) { for (size_t v : c.perm(n)) p.nodeOrder_.push_back(v); c.note("order " + pbt::vec(p.nodeOrder_)); }
   if (c.flip(0.4)) { // an acyclic set of tree factors
      Vec comp(n); for (size_t i = 0; i < n; ++i) comp[i] = i; for (size_t f : c.perm(m.factors.size())) { const Vec& v = m.factors[f].vars; if (v.size() == 1 && c.flip(0.2)) p.addTreeFactorId(f); if (v.size() != 2 || comp[v[0]] == comp[v[1]] || c.flip(0.2)) continue; size_t from = comp[v[1]], to = comp[v[0]]; for (size_t& x : comp) if (x == from) x = to; p.addTreeFactorId(f); } c.note("tree factors " + pbt::vec(p.treeFactorIds_)); c.labelIf(!p.treeFactorIds_.empty(), "own tree factors"); }
   bool bounded = c.flip(0.2); if (bounded) { p.objectiveBound_ = sorted[c.upTo(sorted.size() - 1)]; p.numberOfOpt_ = c.range(1, 60); c.note(pbt::str("objective bound ", p.objectiveBound_)); }
   c.note(pbt::str("heuristic ", p.heuristic_, " number of solutions ", p.numberOfOpt_)); c.label(pbt::str("heuristic ", p.heuristic_));
   S s(gm, p); opengm::InferenceTermination t = s.infer(); std::vector<std::vector<size_t> > a; s.args(a); size_t want = std::min(p.numberOfOpt_, sorted.size());
   if (p.numberOfOpt_ <= sorted.size()) CHECK(t == opengm::NORMAL, "terminates normally when the requested number of solutions exists");
   if (!bounded) CHECK_EQ(a.size(), want, "number of solutions"); else { CHECK(a.size() <= want && !a.empty(), "number of solutions " << a.size()); if (a.size() < want) { size_t inside = 0; for (double v : sorted) inside += notWorse(v, p.objectiveBound_, mx); CHECK(a.size() >= std::min(want, inside), "all solutions within the objective bound are returned: " << a.size() << " of " << inside); } }
   std::set<std::vector<size_t> > seen;
   for (size_t i = 0; i < a.size(); ++i) { CHECK_EQ(a[i].size(), n, "size of solution " << i); for (size_t v = 0; v < n; ++v) CHECK(a[i][v] < m.labels[v], "label in range"); CHECK_EQ(m.value(a[i], mult), sorted[i], "value of solution " << i << " " << pbt::vec(a[i])); CHECK(seen.insert(a[i]).second, "solution " << i << " repeats an earlier one"); std::vector<size_t> x; CHECK(s.arg(x, i + 1) == opengm::NORMAL, "arg of solution " << i); CHECK(x == a[i], "arg and args agree"); }
   std::vector<size_t> x; CHECK(s.arg(x, a.size() + 1) != opengm::NORMAL, "no more solutions than found"); CHECK_EQ(s.value(), sorted[0], "reported value"); if (!bounded) CHECK_EQ(s.bound(), sorted[want - 1], "reported bound");
   c.nontrivialIf(n > 1 && m.order() > 1 && sorted.size() > 3);
}
