// FLAGS: HDF5
#include "hdf5.h"
#include <opengm/functions/fieldofexperts.hxx>
#include <opengm/functions/constraint_functions/num_labels_limitation_function.hxx>
#include <opengm/functions/constraint_functions/linear_constraint_function.hxx>
#include <opengm/functions/soft_constraint_functions/label_cost_function.hxx>
#include <opengm/functions/soft_constraint_functions/sum_constraint_function.hxx>
#include <opengm/functions/learnable/lpotts.hxx>
typedef opengm::ExplicitFunction<double, size_t, size_t> Ex; typedef opengm::FoEFunction<double, size_t, size_t> Fo; typedef opengm::NumLabelsLimitationFunction<double, size_t, size_t> Nl; typedef opengm::LinearConstraintFunction<double, size_t, size_t> Li; typedef opengm::LabelCostFunction<double, size_t, size_t> Lc; typedef opengm::SumConstraintFunction<double, size_t, size_t> Su;
typedef opengm::GraphicalModel<double, opengm::Adder, opengm::meta::TypeListGenerator<Ex, Fo, Nl, Li, Lc, Su>::type> GA;
typedef opengm::GraphicalModel<double, opengm::Adder, opengm::meta::TypeListGenerator<Su, Li, Fo, Ex, Lc, Nl>::type> GB;
template<class A, class B> static void constraintTrip(pbt::Ctx& c) {
   size_t n = c.range(1, 4), l = c.range(2, 3); A a(opengm::DiscreteSpace<size_t, size_t>(n, l)); size_t k = c.range(0, 6); Vec sh; std::string desc = pbt::str("n=", n, " l=", l); size_t kindsSeen = 0;
   std::vector<Vec> scopes;
   for (size_t i = 0; i < k; ++i) {
      Vec v = c.subset(n, c.range(1, std::min<size_t>(n, 3))), s(v.size(), l); size_t kind = c.upTo(5); desc += pbt::str(" ", kind, pbt::vec(v)); kindsSeen |= 1 << kind; typename A::FunctionIdentifier id; scopes.push_back(v);
      switch (kind) {
      case 0: { Ex f(s.begin(), s.end()); forAll(s, [&](const Vec& x) { f(x.begin()) = c.sym(8) / 4.0; }); id = a.addFunction(f); break; }
      case 1: { DVec ex, al; size_t e = c.range(1, 2); for (size_t q = 0; q < v.size() * e; ++q) ex.push_back(c.sym(8) / 4.0); for (size_t q = 0; q < e; ++q) al.push_back(c.sym(8) / 4.0); id = a.addFunction(Fo(ex, al, l)); break; }
      case 2: id = a.addFunction(Nl(s.begin(), s.end(), c.upTo(3), c.sym(8) / 4.0, c.sym(8) / 4.0)); break;
      case 3: { Li::LinearConstraintType lc; size_t q = c.range(1, 3); for (size_t j = 0; j < q; ++j) lc.add(opengm::IndicatorVariable<size_t, size_t>(c.upTo(v.size() - 1), c.upTo(l - 1)), c.sym(4) / 2.0); lc.setBound(c.sym(4) / 2.0); id = a.addFunction(Li(s.begin(), s.end(), Li::LinearConstraintsContainerType(1, lc), c.sym(8) / 4.0, c.sym(8) / 4.0)); break; }
      case 4: id = a.addFunction(Lc(s.begin(), s.end(), c.upTo(l - 1), c.sym(8) / 4.0)); break;
      default: { DVec co; for (size_t q = 0; q < l * v.size(); ++q) co.push_back(c.sym(6) / 2.0); id = a.addFunction(Su(s.begin(), s.end(), co.begin(), co.end(), false, c.sym(6) / 2.0, c.sym(8) / 2.0)); } }
      a.addFactor(id, v.begin(), v.end());
   }
   c.note(desc); c.nontrivialIf((kindsSeen & (kindsSeen - 1)) != 0);
   TempFile f; opengm::hdf5::save(a, f.path, "gm"); B b; opengm::hdf5::load(b, f.path, "gm"); CHECK_EQ((size_t)b.numberOfVariables(), n, "variables"); CHECK_EQ((size_t)b.numberOfFactors(), k, "factors");
   for (size_t i = 0; i < k; ++i) { CHECK_EQ((size_t)b[i].numberOfVariables(), scopes[i].size(), "order of factor " << i); for (size_t j = 0; j < scopes[i].size(); ++j) CHECK_EQ((size_t)b[i].variableIndex(j), scopes[i][j], "scope of factor " << i); forAll(Vec(scopes[i].size(), l), [&](const Vec& x) { CHECK_EQ((double)b[i](x.begin()), (double)a[i](x.begin()), "factor " << i << " at " << pbt::vec(x)); }); }
}
PROP(constraint_models, 2000, 60000) { if (c.flip()) constraintTrip<GA, GB>(c); else constraintTrip<GB, GA>(c); }
