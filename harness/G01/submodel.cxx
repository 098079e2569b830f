#include "gen_model.hxx"
#include <opengm/functions/view.hxx>
#include <opengm/functions/view_fix_variables_function.hxx>
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/dynamicprogramming.hxx>
#ifndef OPENGM_GM_TYPE_TYPEDEFS
#include <opengm/inference/inference.hxx>
#endif
#include <opengm/inference/auxiliary/submodel/submodel_builder.hxx>
using namespace gen;
typedef SumGMs::All GM;
// a solver that is handed the factors one by one: keeps their values and enumerates
template<class ACC> struct InPlace {
   struct Parameter { size_t* factors; Vec* start; };
   struct Table { Vec vars, shape; DVec v; };
   Vec shape, best; std::vector<Table> t; Parameter p;
   template<class I> InPlace(I b, I e, const Parameter& q) : shape(b, e), p(q) {}
   template<class I, class F> void addFactor(I b, I e, const F& f) { Table x; x.vars.assign(b, e); for (size_t v : x.vars) { CHECK(v < shape.size(), "variable of the sub-model"); x.shape.push_back(shape[v]); } CHECK_EQ(f.size(), prodOf(x.shape), "size of a handed function"); Vec c(x.vars.size(), 0); do x.v.push_back(f(c.begin())); while (nextCoord(x.shape, c)); t.push_back(x); ++*p.factors; }
   template<class I> void setStartingPoint(I b) { p.start->assign(b, b + shape.size()); }
   double value(const Vec& x) const { double s = 0; for (auto& q : t) { Vec c; for (size_t v : q.vars) c.push_back(x[v]); s += q.v[idxOf(q.shape, c)]; } return s; }
   void infer() { bool first = true; double b = 0; forAll(shape, [&](const Vec& x) { double v = value(x); if (first || ACC::bop(v, b)) { b = v; best = x; first = false; } }); }
   void arg(Vec& x) const { x = best; }
};
template<class ACC> static void sub(pbt::Ctx& c, bool mx) {
   Opt o; o.minVars = 1; o.maxVars = 6; o.maxLabels = 3; o.maxOrder = c.pick({ 2, 2, 3, 4 }); o.maxFactors = 10; o.order0 = false; o.minFactors = 1; Model m = genModel(c, o); c.note(m.str()); GM gm = buildAll<GM>(m); size_t n = m.n();
   opengm::SubmodelOptimizer<GM, ACC> s(gm); typedef typename opengm::SubmodelOptimizer<GM, ACC>::SubGmType Sub; Vec x(n, 0); for (size_t v = 0; v < n; ++v) { x[v] = c.upTo(m.labels[v] - 1); s.setLabel(v, x[v]); }
   auto better = [&](double a, double b) { return mx ? a > b : a < b; }; size_t rounds = c.range(1, 6);
   for (size_t r = 0; r < rounds; ++r) {
      Vec vi; if (c.flip(0.1)) for (size_t v = 0; v < n; ++v) vi.push_back(v); else vi = c.subset(n, c.range(1, (long)n)); int how = (int)c.upTo(2); std::vector<bool> in(n, false); for (size_t v : vi) in[v] = true;
      // the dynamic program needs a forest: the factors' free parts as edges
      if (how == 2) { std::set<std::pair<size_t, size_t> > E; bool ok = true; Vec comp(n); for (size_t v = 0; v < n; ++v) comp[v] = v; for (auto& f : m.factors) { Vec w; for (size_t v : f.vars) if (in[v]) w.push_back(v); if (w.size() > 2) ok = false; else if (w.size() == 2) E.insert({ w[0], w[1] }); } for (auto& e : E) { if (comp[e.first] == comp[e.second]) ok = false; size_t a = comp[e.first], b = comp[e.second]; for (size_t& q : comp) if (q == a) q = b; } if (!ok) how = (int)c.upTo(1); }
      c.note(pbt::str("variables ", pbt::vec(vi), " at ", pbt::vec(x), " with ", how)); c.label(how == 0 ? "sub-model" : how == 1 ? "in place" : "dynamic programming");
      s.setVariableIndices(vi.begin(), vi.end()); CHECK_EQ((size_t)s.submodelSize(), vi.size(), "size of the sub-model"); for (size_t v = 0; v < n; ++v) CHECK_EQ((bool)s.inSubmodel(v), (bool)in[v], "variable " << v << " in the sub-model");
      Vec y(c.upTo(3), 7); bool changed, warm = c.flip(); Vec from; size_t handed = 0, touching = 0; for (auto& f : m.factors) for (size_t v : f.vars) if (in[v]) { ++touching; break; }
      if (how == 0) changed = s.template inferSubmodel<opengm::Bruteforce<Sub, ACC> >(typename opengm::Bruteforce<Sub, ACC>::Parameter(), y); else if (how == 1) { typename InPlace<ACC>::Parameter p = { &handed, &from }; changed = s.template inferSubmodelInplace<InPlace<ACC> >(p, y, true, warm); if (warm) { Vec w; for (size_t v : vi) w.push_back(x[v]); CHECK(from == w, "starting point of the sub-model"); } CHECK_EQ(handed, touching, "every factor is handed over once"); } else changed = s.mergeFactorsAndInferDp(y);
      CHECK_EQ(y.size(), vi.size(), "size of the labeling"); Vec z = x, best = x; bool diff = false; for (size_t k = 0; k < vi.size(); ++k) { CHECK(y[k] < m.labels[vi[k]], "label in range"); diff = diff || y[k] != x[vi[k]]; z[vi[k]] = y[k]; } CHECK_EQ(changed, diff, "reports a change iff the labeling changed");
      double got = m.sum(z); Vec sh; for (size_t v : vi) sh.push_back(m.labels[v]); forAll(sh, [&](const Vec& q) { for (size_t k = 0; k < vi.size(); ++k) best[vi[k]] = q[k]; CHECK(!better(m.sum(best), got), "labeling " << pbt::vec(best) << " of value " << m.sum(best) << " beats " << pbt::vec(z) << " of value " << got); });
      s.unsetVariableIndices(); if (vi.size() < n && vi.size() > 1 && m.order() > 1) c.nontrivial();
      if (c.flip(0.8)) { x = z; for (size_t k = 0; k < vi.size(); ++k) s.setLabel(vi[k], x[vi[k]]); } if (c.flip(0.3)) { size_t v = c.upTo(n - 1); x[v] = c.upTo(m.labels[v] - 1); s.setLabel(v, x[v]); }
   }
}
PROP(submodel_min, 2500, 80000) { sub<opengm::Minimizer>(c, false); }
PROP(submodel_max, 1500, 50000) { sub<opengm::Maximizer>(c, true); }
// factors over the same variables become one
PROP(merge_factors, 2500, 80000) {
   Opt o; o.minVars = 1; o.maxVars = 5; o.maxLabels = 3; o.maxOrder = 2; o.maxFactors = 10; o.order0 = false; Model m = genModel(c, o); c.note(m.str()); GM gm = buildAll<GM>(m); typedef SumGMs::Expl Out; Out out(Out::SpaceType(m.labels.begin(), m.labels.end())); opengm::mergeFactors(gm, out);
   std::set<Vec> scopes; for (auto& f : m.factors) scopes.insert(f.vars); std::set<Vec> got; for (size_t f = 0; f < out.numberOfFactors(); ++f) CHECK(got.insert(Vec(out[f].variableIndicesBegin(), out[f].variableIndicesEnd())).second, "two factors with the same variables"); CHECK(got == scopes, "scopes of the merged model"); forAll(m.labels, [&](const Vec& x) { CHECK_EQ(out.evaluate(x.begin()), m.sum(x), "value at " << pbt::vec(x)); }); c.nontrivialIf(got.size() < m.factors.size() && m.order() == 2);
}
