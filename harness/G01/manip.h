#include "gen_model.hxx"
#include <opengm/graphicalmodel/graphicalmodel_manipulator.hxx>
#include <memory>
using namespace gen;
using pbt::Ctx;

// Reference state of a reduction: which variables the user fixed, and to what.
struct Ref { Model m; bool mult; bool drop; std::map<size_t, size_t> fixed; };
static double refValue(const Ref& r, const Vec& x) {
   double e = r.mult ? 1 : 0;
   for (size_t i = 0; i < r.m.factors.size(); ++i) {
      if (r.drop) { bool skip = false; for (size_t v : r.m.factors[i].vars) if (r.fixed.count(v)) skip = true; if (skip) continue; }
      double z = r.m.factorValue(i, x); if (r.mult) e *= z; else e += z;
   }
   return e;
}
static Vec components(const Ref& r, size_t& count) {   // components of the free variables, connected by sharing a factor
   size_t n = r.m.n(); Vec comp(n); for (size_t i = 0; i < n; ++i) comp[i] = i;
   for (auto& f : r.m.factors) { long first = -1; for (size_t v : f.vars) if (!r.fixed.count(v)) { if (first < 0) first = v; else { size_t a = comp[first], b = comp[v]; for (auto& z : comp) if (z == b) z = a; } } }
   std::set<size_t> s; for (size_t i = 0; i < n; ++i) if (!r.fixed.count(i)) s.insert(comp[i]); count = s.size(); return comp;
}
template<class GM> static Vec freeOf(const opengm::GraphicalModelManipulator<GM>& man, size_t n) { Vec f; for (size_t i = 0; i < n; ++i) if (!man.isFixed(i)) f.push_back(i); return f; }
// the value a reduced labeling must have, and a check of the full labeling recovered for it
template<class GM> static void checkFull(Ctx& c, const Ref& r, const opengm::GraphicalModelManipulator<GM>& man, const Vec& kept, const Vec& keptLabels, const std::vector<typename GM::LabelType>& full, double energy, bool elim, bool maximize, const char* what) {
   CHECK_EQ(full.size(), r.m.n(), what << ": size of the recovered labeling"); Vec x(full.begin(), full.end());
   for (size_t i = 0; i < kept.size(); ++i) CHECK_EQ(x[kept[i]], keptLabels[i], what << ": label of the free variable " << kept[i]);
   for (auto& p : r.fixed) CHECK_EQ(x[p.first], p.second, what << ": label of the fixed variable " << p.first);
   for (size_t i = 0; i < x.size(); ++i) CHECK(x[i] < r.m.labels[i], what << ": label out of range");
   CHECK_EQ(refValue(r, x), energy, what << ": value of the reduced model versus the original one at " << pbt::vec(x));
   if (elim) { // the eliminated variables must be optimal given the others
      Vec ev; std::vector<bool> k(x.size(), false); for (size_t v : kept) k[v] = true; for (auto& p : r.fixed) k[p.first] = true; for (size_t v = 0; v < x.size(); ++v) if (!k[v]) ev.push_back(v);
      if (prodOf(shapeOf(r.m, ev)) > 3000) return;
      Vec y = x; forAll(shapeOf(r.m, ev), [&](const Vec& z) { for (size_t i = 0; i < ev.size(); ++i) y[ev[i]] = z[i]; double e = refValue(r, y); CHECK(maximize ? e <= energy : e >= energy, what << ": eliminated variables not optimal: " << energy << " at " << pbt::vec(x) << " but " << e << " at " << pbt::vec(y)); });
   }
}
template<class GM, class MGM> static void checkShape(Ctx& c, const Ref& r, const MGM& mm, const Vec& kept, const char* what) {
   CHECK_EQ((size_t)mm.numberOfVariables(), kept.size(), what << ": number of variables"); for (size_t i = 0; i < kept.size(); ++i) CHECK_EQ((size_t)mm.numberOfLabels(i), r.m.labels[kept[i]], what << ": number of labels");
   for (size_t f = 0; f < mm.numberOfFactors(); ++f) for (size_t k = 0; k < mm[f].numberOfVariables(); ++k) CHECK((size_t)mm[f].variableIndex(k) < kept.size(), what << ": scope");
}
template<class GM> static void verifyModel(Ctx& c, const Ref& r, const opengm::GraphicalModelManipulator<GM>& man, bool elim, bool maximize) {
   typedef std::vector<typename GM::LabelType> LV;
   CHECK(man.isLocked(), "locked after building"); Vec kept = freeOf(man, r.m.n()); const auto& mm = man.getModifiedModel();
   if (!elim) { Vec e; for (size_t i = 0; i < r.m.n(); ++i) if (!r.fixed.count(i)) e.push_back(i); CHECK(kept == e, "free variables " << pbt::vec(kept) << " expected " << pbt::vec(e)); }
   checkShape<GM>(c, r, mm, kept, "model");
   size_t budget = 250; std::set<Vec> seen;
   forAll(shapeOf(r.m, kept), [&](const Vec& x) { if (!budget) return; --budget; LV l(x.begin(), x.end()), full(c.upTo(2), 7); man.modifiedState2OriginalState(l, full); l.push_back(0); checkFull(c, r, man, kept, x, full, mm.evaluate(l.begin()), elim, maximize, "model"); CHECK(seen.insert(Vec(full.begin(), full.end())).second, "two reduced labelings map to the same labeling"); });
}
template<class GM> static void verifySub(Ctx& c, const Ref& r, const opengm::GraphicalModelManipulator<GM>& man, bool elim, bool maximize) {
   typedef std::vector<typename GM::LabelType> LV;
   CHECK(man.isLocked(), "locked after building"); Vec kept = freeOf(man, r.m.n());
   Ref q = r; for (size_t i = 0; i < r.m.n(); ++i) if (man.isFixed(i)) q.fixed[i] = 0; size_t nc; Vec comp = components(q, nc);
   CHECK_EQ(man.numberOfSubmodels(), std::max<size_t>(nc, 1), "number of independent sub-models"); c.labelIf(nc > 1, "sub-models>1");
   // the sub-models in order of their first variable, variables in ascending order (documented invariant)
   std::vector<Vec> vars; std::map<size_t, size_t> id; for (size_t v : kept) { if (!id.count(comp[v])) { id[comp[v]] = vars.size(); vars.push_back(Vec()); } vars[id[comp[v]]].push_back(v); } if (vars.empty()) vars.push_back(Vec());
   for (size_t s = 0; s < vars.size(); ++s) checkShape<GM>(c, r, man.getModifiedSubModel(s), vars[s], "sub-model");
   size_t budget = 150; std::vector<LV> sub(vars.size());
   forAll(shapeOf(r.m, kept), [&](const Vec& x) { if (!budget) return; --budget; for (size_t s = 0; s < vars.size(); ++s) sub[s].clear(); for (size_t i = 0; i < kept.size(); ++i) sub[id[comp[kept[i]]]].push_back(x[i]);
      double e = r.mult ? 1 : 0; for (size_t s = 0; s < vars.size(); ++s) { LV l = sub[s]; l.push_back(0); double z = man.getModifiedSubModel(s).evaluate(l.begin()); if (r.mult) e *= z; else e += z; }
      LV full; man.modifiedSubStates2OriginalState(sub, full); checkFull(c, r, man, kept, x, full, e, elim, maximize, "sub-models"); });
}
template<class GM, class ACC> static void history(Ctx& c, Opt o, bool mult, bool maximize) {
   typedef opengm::GraphicalModelManipulator<GM> Man;
   Ref r; r.m = genModel(c, o);
   if (c.flip(0.55) && r.m.n() >= 4) { // a cyclic core with dangling trees
      Vec v = c.subset(r.m.n(), c.range(3, std::min<long>(5, r.m.n()))); size_t len = v.size(); for (size_t i = 0; i < len; ++i) { Vec e = {std::min(v[i], v[(i + 1) % len]), std::max(v[i], v[(i + 1) % len])}; r.m.funcs.push_back(genFunc(c, o, shapeOf(r.m, e))); r.m.factors.push_back(Factor{r.m.funcs.size() - 1, e}); } }
   r.mult = mult; r.drop = c.flip(0.25); c.note(r.m.str()); if (r.drop) c.note("mode DROP");
   GM gm = buildAll<GM>(r.m); std::unique_ptr<Man> man(new Man(gm, r.drop ? Man::DROP : Man::FIX)); size_t n = r.m.n(), ops = 0;
   CHECK(!man->isLocked(), "unlocked at first"); CHECK(&man->getOriginalModel() == &gm, "original model");
   size_t rounds = c.range(1, 3);
   for (size_t round = 0; round < rounds; ++round) {
      size_t k = c.upTo(n + 2);
      for (size_t i = 0; i < k; ++i) { size_t v = c.upTo(n - 1);
         switch (c.weighted({6, 2, 1, 1})) {
         case 0: case 3: { size_t l = c.upTo(r.m.labels[v] - 1); c.note(pbt::str("fix ", v, " to ", l)); man->fixVariable(v, l); r.fixed[v] = l; break; }
         case 1: c.note(pbt::str("free ", v)); man->freeVariable(v); r.fixed.erase(v); break;
         default: c.note("free all"); man->freeAllVariables(); r.fixed.clear(); } ++ops;
         for (size_t q = 0; q < n; ++q) CHECK_EQ(man->isFixed(q), r.fixed.count(q) > 0, "isFixed " << q); }
      bool elim = false;
      switch (c.upTo(r.drop ? 1 : 3)) {
      case 0: c.note("build without lock"); break;
      case 1: c.note("lock"); man->lock(); CHECK(man->isLocked(), "lock"); break;
      default: c.note("lock and eliminate tentacles"); man->template lockAndTentacelElimination<ACC>(); CHECK(man->isLocked(), "lock"); elim = true; }
      if (elim) { size_t e = 0; for (size_t q = 0; q < n; ++q) { if (r.fixed.count(q)) CHECK(man->isFixed(q), "fixed variable released by the elimination"); else e += man->isFixed(q); } c.labelIf(e, "eliminated"); c.labelIf(e && e + r.fixed.size() < n, "eliminated-partly"); c.labelIf(e && r.m.order() > 2, "eliminated-higher-order"); }
      size_t b = c.upTo(2); if (b == 0 || b == 2) { c.note("build model"); man->buildModifiedModel(); verifyModel(c, r, *man, elim, maximize); }
      if (b == 1 || b == 2) { c.note("build sub-models"); man->buildModifiedSubModels(); verifySub(c, r, *man, elim, maximize); }
      if (c.flip(0.2)) { c.note("build both again"); man->buildModifiedSubModels(); man->buildModifiedModel(); verifySub(c, r, *man, elim, maximize); verifyModel(c, r, *man, elim, maximize); }
      if (c.flip(0.15)) { c.note("copy"); std::unique_ptr<Man> d(new Man(*man)); man = std::move(d); if (b != 1) verifyModel(c, r, *man, elim, maximize); if (b != 0) verifySub(c, r, *man, elim, maximize); }
      c.nontrivialIf(!r.fixed.empty() && r.fixed.size() < n && !r.m.factors.empty());
      c.note("unlock"); man->unlock(); r.fixed.clear(); CHECK(!man->isLocked(), "unlock"); for (size_t q = 0; q < n; ++q) CHECK(!man->isFixed(q), "unlock releases all variables");
   }
}
static Opt manOpt(Ctx& c, bool mult, long order) { Opt o; o.minVars = c.flip(0.3) ? 1 : 5; o.maxVars = 7; o.maxLabels = 3; o.maxOrder = order; o.maxFactors = 9; o.positive = mult; o.amp = 5; o.maxConfigs = 700; o.order0 = c.flip(0.3); if (c.flip(0.6)) o.tree = true; return o; }
