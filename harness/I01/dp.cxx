#include "solve.hxx"
#include <opengm/inference/dynamicprogramming.hxx>
using namespace gen;
using pbt::Ctx;

template<class OP, class ACC, class I, class L> static void dp(Ctx& c, bool mult, bool mx) {
   Opt o; o.tree = true; o.maxOrder = 2; o.maxVars = 7; o.maxLabels = 5; o.maxFactors = 12; o.maxConfigs = 2000; o.positive = mult; o.zeroValue = mult; o.dyadic = c.flip(0.3); if (c.flip(0.2)) o.amp = 1; o.order0 = c.flip(0.5); Model m = genModel(c, o); if (!mult && c.flip(0.3)) { double inf = mx ? -std::numeric_limits<double>::infinity() : std::numeric_limits<double>::infinity(); double p = c.pick({0.1, 0.5, 1.0}); for (auto& f : m.funcs) if (f.kind == EXPL) for (double& v : f.p) if (c.flip(p)) v = inf; c.label("infinite values"); } c.note(m.str()); size_t n = m.n(); Best b = bruteMin(m, mult, mx);
   typedef typename GMs<double, OP, I, L>::All GM; auto gm = buildAll<GM>(m); typedef opengm::DynamicProgramming<GM, ACC> S; typename S::Parameter p;
   Vec comp(n); for (size_t i = 0; i < n; ++i) comp[i] = i; for (auto& f : m.factors) if (f.vars.size() == 2) { size_t from = comp[f.vars[1]], to = comp[f.vars[0]]; for (size_t& x : comp) if (x == from) x = to; }
   if (c.flip()) { std::set<size_t> used; for (size_t v : c.perm(n)) if (c.flip(0.7) && used.insert(comp[v]).second) p.roots_.push_back(v); c.note("roots " + pbt::vec(p.roots_)); c.labelIf(!p.roots_.empty(), "roots given"); }
   S s(gm, p); { std::vector<L> y; CHECK(s.arg(y) != opengm::NORMAL, "no labeling before inference"); }
   CHECK(s.infer() == opengm::NORMAL, "terminates normally"); Vec x = argOf(c, s, m, "dynamic programming"); CHECK_EQ(m.value(x, mult), b.value, "energy of the returned labeling " << pbt::vec(x)); CHECK_EQ(s.value(), b.value, "reported value");
   for (size_t r : p.roots_) { // min-marginals of the root over its component
      std::vector<double> values; std::vector<std::vector<L> > sub; std::vector<I> nodes; s.getNodeInfo(r, values, sub, nodes); CHECK_EQ(values.size(), m.labels[r], "values of the root"); CHECK_EQ(sub.size(), m.labels[r], "labelings of the root"); std::set<size_t> cs; for (size_t i = 0; i < n; ++i) if (comp[i] == comp[r]) cs.insert(i); std::set<size_t> ns(nodes.begin(), nodes.end()); ns.insert(r); CHECK(ns == cs && nodes.size() + 1 == cs.size(), "variables of the component of root " << r << ": " << pbt::vec(nodes));
      Model part; part.labels = m.labels; for (size_t i = 0; i < n; ++i) if (comp[i] != comp[r]) part.labels[i] = 1; part.funcs = m.funcs; for (auto& f : m.factors) if (!f.vars.empty() && comp[f.vars[0]] == comp[r]) part.factors.push_back(f);
      DVec best(m.labels[r]); std::vector<bool> has(m.labels[r]); forAll(part.labels, [&](const Vec& y) { double v = part.value(y, mult); if (!has[y[r]] || (mx ? v > best[y[r]] : v < best[y[r]])) { best[y[r]] = v; has[y[r]] = true; } });
      for (size_t l = 0; l < m.labels[r]; ++l) { CHECK_EQ(values[l], best[l], "value of root " << r << " at label " << l); CHECK_EQ(sub[l].size(), nodes.size(), "labels of the component"); Vec y(n, 0); y[r] = l; for (size_t k = 0; k < nodes.size(); ++k) { CHECK(size_t(sub[l][k]) < m.labels[nodes[k]], "label in range"); y[nodes[k]] = sub[l][k]; } CHECK_EQ(part.value(y, mult), best[l], "value of the labeling of root " << r << " at label " << l); } }
   c.nontrivialIf(m.order() > 1 && m.nConfigs() > b.args.size());
}
template<class OP, class ACC> static void dpT(Ctx& c, bool mult, bool mx) { if (c.flip(0.3)) dp<OP, ACC, unsigned int, unsigned char>(c, mult, mx); else dp<OP, ACC, size_t, size_t>(c, mult, mx); }
PROP(dynamic_programming, 6000, 200000) { switch (c.upTo(3)) { case 0: dpT<opengm::Adder, opengm::Minimizer>(c, false, false); break; case 1: dpT<opengm::Adder, opengm::Maximizer>(c, false, true); break; case 2: dpT<opengm::Multiplier, opengm::Minimizer>(c, true, false); break; default: dpT<opengm::Multiplier, opengm::Maximizer>(c, true, true); } }
