#include "gen_model.hxx"
#include <opengm/utilities/canonical_view.hxx>
using namespace gen;
namespace cv = opengm::canonical_view;
template<class GM, cv::CloneOption CL> static void canonical(pbt::Ctx& c, const GM& gm, const Model& m, bool mult) {
   opengm::CanonicalView<GM, CL> v(gm);
   CHECK_EQ((size_t)v.numberOfVariables(), m.n(), "variables"); for (size_t i = 0; i < m.n(); ++i) CHECK_EQ((size_t)v.numberOfLabels(i), m.labels[i], "labels");
   std::set<Vec> want, got; for (size_t i = 0; i < m.n(); ++i) want.insert(Vec(1, i)); for (auto& f : m.factors) want.insert(f.vars);
   for (size_t i = 0; i < v.numberOfFactors(); ++i) {
      Vec s(v[i].variableIndicesBegin(), v[i].variableIndicesEnd()); CHECK(got.insert(s).second, "two factors over " << pbt::vec(s));
      forAll(shapeOf(m, s), [&](const Vec& x0) { Vec x = x0; if (x.empty()) x.push_back(0); double e = mult ? 1 : 0; for (auto& f : m.factors) if (f.vars == s) { double z = m.funcs[f.f].eval(x0); if (mult) e *= z; else e += z; }
         CHECK_NEAR((double)v[i](x.begin()), e, 1e-12, "value of the factor over " << pbt::vec(s) << " at " << pbt::vec(x0)); });
   }
   CHECK(got == want, "set of scopes"); for (size_t i = 0; i < m.n(); ++i) { size_t un = 0; for (size_t k = 0; k < v.numberOfFactors(i); ++k) if (v[v.factorOfVariable(i, k)].numberOfVariables() == 1) ++un; CHECK_EQ(un, (size_t)1, "unary factors of variable " << i); }
   size_t budget = 200; forAll(m.labels, [&](const Vec& x) { if (!budget) return; --budget; CHECK_NEAR(v.evaluate(x.begin()), m.value(x, mult), 1e-12, "objective"); });
}
template<class GM> static void all(pbt::Ctx& c, bool mult) {
   Opt o; o.minVars = 1; o.maxVars = 5; o.maxLabels = 3; o.maxOrder = 3; o.maxFactors = 8; o.order0 = true; o.positive = mult; o.dupScopes = true; o.amp = 4;
   Model m = genModel(c, o); c.note(m.str()); std::set<Vec> s; size_t dup = 0; for (auto& f : m.factors) if (!s.insert(f.vars).second) ++dup; c.nontrivialIf(dup); c.labelIf(s.count(Vec()), "constant-factor");
   GM gm = buildAll<GM>(m);
   switch (c.upTo(2)) { case 0: canonical<GM, cv::CloneNever>(c, gm, m, mult); break; case 1: canonical<GM, cv::CloneViews>(c, gm, m, mult); break; default: canonical<GM, cv::CloneDeep>(c, gm, m, mult); }
}
PROP(canonical_sum, 5000, 200000) { all<SumGMs::All>(c, false); }
PROP(canonical_product, 3000, 100000) { all<MulGMs::All>(c, true); }
