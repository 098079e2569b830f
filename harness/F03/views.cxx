#include "gen_model.hxx"
#include <opengm/functions/view.hxx>
#include <opengm/functions/scaled_view.hxx>
#include <opengm/functions/view_convert_function.hxx>
#include <opengm/functions/view_fix_variables_function.hxx>
#include <opengm/functions/accumulated_view.hxx>
#include <opengm/functions/modelviewfunction.hxx>
#include <opengm/datastructures/marray/marray.hxx>
#include <opengm/graphicalmodel/graphicalmodel_explicit_storage.hxx>
using namespace gen;

template<class F, class E> static void equalsTable(pbt::Ctx& c, const F& f, const Vec& shape, E expect, const char* what, double tol = 1e-12) {
   CHECK_EQ((size_t)f.dimension(), shape.size(), what << ": dimension");
   CHECK_EQ((size_t)f.size(), prodOf(shape), what << ": size");
   for (size_t d = 0; d < shape.size(); ++d) CHECK_EQ((size_t)f.shape(d), shape[d], what << ": shape " << d);
   double mn = 1e300, mx = -1e300;
   forAll(shape, [&](const Vec& x0) { Vec x = x0; if (x.empty()) x.push_back(0); double e = expect(x0), v = f(x.begin()); mn = std::min(mn, e); mx = std::max(mx, e); CHECK_NEAR(v, e, tol, what << " at " << pbt::vec(x0)); });
   auto sb = f.functionShapeBegin(); for (size_t d = 0; d < shape.size(); ++d) CHECK_EQ((size_t)sb[d], shape[d], what << ": shape iterator");
   CHECK_NEAR((double)f.min(), mn, tol, what << ": min"); CHECK_NEAR((double)f.max(), mx, tol, what << ": max");
}
static Model baseModel(pbt::Ctx& c, bool positive) {
   Opt o; o.minVars = 1; o.maxVars = 5; o.maxLabels = 4; o.maxOrder = 4; o.maxFactors = 6; o.minFactors = 1; o.order0 = true; o.positive = positive; o.dupScopes = true; o.amp = 4;
   Model m = genModel(c, o); c.note(m.str()); return m;
}
template<class GM> static void views(pbt::Ctx& c, const GM& gm, const Model& m) {
   size_t fi = c.upTo(m.factors.size() - 1); const Vec& vars = m.factors[fi].vars; Vec shape = shapeOf(m, vars); const Func& fu = m.funcs[m.factors[fi].f];
   auto ev = [&](const Vec& x) { return fu.eval(x); };
   c.nontrivialIf(vars.size() >= 2);
   { opengm::ViewFunction<GM> v(gm[fi]); equalsTable(c, v, shape, ev, "view"); }
   double s = c.sym(8) / 2.0;
   { opengm::ScaledViewFunction<GM> v(gm, fi, s); equalsTable(c, v, shape, [&](const Vec& x) { return s * ev(x); }, "scaled view"); }
   { std::vector<typename GM::IndexType> sh(shape.begin(), shape.end()); opengm::ScaledViewFunction<GM> v(sh); double n = GM::OperatorType::template neutral<double>(); equalsTable(c, v, shape, [&](const Vec&) { return n; }, "neutral view"); }
   { typedef marray::Marray<double> MA; typedef opengm::ModelViewFunction<GM, MA> MV;
     MV v(gm, fi, s); equalsTable(c, v, shape, [&](const Vec& x) { return s * ev(x); }, "model view");
     if (!shape.empty()) {
        Vec z; forAll(shape, [&](const Vec&) { z.push_back(c.upTo(6)); });
        for (int order = 0; order < 2; ++order) {
           MA off(shape.begin(), shape.end(), 0.0, order ? marray::FirstMajorOrder : marray::LastMajorOrder); forAll(shape, [&](const Vec& x) { off(x.begin()) = z[idxOf(shape, x)]; });
           MV a(gm, fi, s, &off), b(&off);
           equalsTable(c, a, shape, [&](const Vec& x) { return s * ev(x) + z[idxOf(shape, x)]; }, "model view with offset");
           equalsTable(c, b, shape, [&](const Vec& x) { return (double)z[idxOf(shape, x)]; }, "offset view");
        }
     } }
   { // fixing variables: any subset of positions, ascending
      Vec pos = c.subsetOf(vars.size(), 0.5), rest, rs; std::vector<opengm::PositionAndLabel<typename GM::IndexType, typename GM::LabelType> > pl; opengm::FastSequence<opengm::PositionAndLabel<typename GM::IndexType, typename GM::LabelType> > pf;
      std::map<size_t, size_t> lab; for (size_t p : pos) { lab[p] = c.upTo(shape[p] - 1); pl.push_back(opengm::PositionAndLabel<typename GM::IndexType, typename GM::LabelType>(p, lab[p])); pf.push_back(pl.back()); }
      for (size_t p = 0; p < shape.size(); ++p) if (!lab.count(p)) { rest.push_back(p); rs.push_back(shape[p]); }
      auto full = [&](const Vec& x) { Vec y(shape.size()); for (auto& q : lab) y[q.first] = q.second; for (size_t i = 0; i < x.size(); ++i) y[rest[i]] = x[i]; return ev(y); };
      opengm::ViewFixVariablesFunction<GM> a(gm[fi], pl), b(gm[fi], pf), d(a), e; e = b;
      equalsTable(c, a, rs, full, "fixed variables"); equalsTable(c, b, rs, full, "fixed variables (sequence)"); equalsTable(c, d, rs, full, "copy of fixed view"); equalsTable(c, e, rs, full, "assigned fixed view");
      c.label("fixed " + std::to_string(pos.size()) + "/" + std::to_string(vars.size()));
   }
   { // accumulated view over all factors with the same scope
      std::vector<const typename GM::FactorType*> fs; Vec ids; for (size_t i = 0; i < m.factors.size(); ++i) if (m.factors[i].vars == vars) { fs.push_back(&gm[i]); ids.push_back(i); }
      c.labelIf(fs.size() > 1, "accumulated>1");
      bool mult = std::is_same<typename GM::OperatorType, opengm::Multiplier>::value;
      opengm::AccumulatedViewFunction<GM> v(fs.begin(), fs.end()), w(gm[fi]);
      equalsTable(c, v, shape, [&](const Vec& x) { double r = mult ? 1 : 0; for (size_t i : ids) { double z = m.funcs[m.factors[i].f].eval(x); if (mult) r *= z; else r += z; } return r; }, "accumulated view");
      equalsTable(c, w, shape, ev, "accumulated view of one factor");
   }
}
template<class GM, class ACC, class P> static void convert(pbt::Ctx& c, const GM& gm, const Model& m, double (*conv)(double, double), double tol) {
   size_t fi = c.upTo(m.factors.size() - 1); Vec shape = shapeOf(m, m.factors[fi].vars); const Func& fu = m.funcs[m.factors[fi].f];
   double t = c.pick(std::vector<double>({0.5, 1, 2, 0.25}));
   opengm::ViewConvertFunction<GM, ACC, P> a(gm[fi]), b(gm[fi], P(t));
   CHECK_EQ((size_t)a.dimension(), shape.size(), "dimension"); CHECK_EQ((size_t)a.size(), prodOf(shape), "size"); for (size_t d = 0; d < shape.size(); ++d) CHECK_EQ((size_t)b.shape(d), shape[d], "shape");
   forAll(shape, [&](const Vec& x0) { Vec x = x0; if (x.empty()) x.push_back(0); CHECK_NEAR((double)a(x.begin()), conv(fu.eval(x0), 1), tol, "converted value"); CHECK_NEAR((double)b(x.begin()), conv(fu.eval(x0), t), tol, "converted value with temperature"); });
}
PROP(views_sum, 4000, 150000) { Model m = baseModel(c, false); auto gm = buildAll<SumGMs::All>(m); views(c, gm, m);
   convert<SumGMs::All, opengm::Minimizer, double>(c, gm, m, [](double v, double t) { return std::exp(-t * v); }, 1e-12); convert<SumGMs::All, opengm::Maximizer, double>(c, gm, m, [](double v, double t) { return std::exp(t * v); }, 1e-12); }
PROP(views_product, 4000, 150000) { Model m = baseModel(c, true); auto gm = buildAll<MulGMs::All>(m); views(c, gm, m);
   convert<MulGMs::All, opengm::Maximizer, double>(c, gm, m, [](double v, double) { return v; }, 1e-12);
   bool pos = true; for (size_t i = 0; i < m.factors.size(); ++i) { forAll(shapeOf(m, m.factors[i].vars), [&](const Vec& x) { if (m.funcs[m.factors[i].f].eval(x) <= 0) pos = false; }); }
   c.labelIf(pos, "strictly-positive"); if (pos) convert<MulGMs::All, opengm::Minimizer, double>(c, gm, m, [](double v, double) { return 1 / v; }, 1e-12); }

// a model of views of another model is the same objective
PROP(model_of_views, 3000, 100000) {
   typedef SumGMs::All GM; Model m = baseModel(c, false); GM gm = buildAll<GM>(m);
   typedef opengm::meta::TypeListGenerator<opengm::ViewFunction<GM>, opengm::ScaledViewFunction<GM>, opengm::AccumulatedViewFunction<GM>, opengm::ViewFixVariablesFunction<GM> >::type TL;
   typedef opengm::GraphicalModel<double, opengm::Adder, TL, opengm::DiscreteSpace<> > VG;
   VG vg(opengm::DiscreteSpace<>(m.labels.begin(), m.labels.end())); DVec sc;
   for (size_t i = 0; i < m.factors.size(); ++i) { double s = 1; VG::FunctionIdentifier id; switch (c.upTo(3)) { case 0: id = vg.addFunction(opengm::ViewFunction<GM>(gm[i])); break; case 1: s = c.sym(3); id = vg.addFunction(opengm::ScaledViewFunction<GM>(gm, i, s)); break;
         case 2: id = vg.addFunction(opengm::AccumulatedViewFunction<GM>(gm[i])); break; default: id = vg.addFunction(opengm::ViewFixVariablesFunction<GM>(gm[i], std::vector<opengm::PositionAndLabel<size_t, size_t> >())); }
      sc.push_back(s); vg.addFactor(id, m.factors[i].vars.begin(), m.factors[i].vars.end()); }
   c.nontrivialIf(m.factors.size() > 1 && m.order() > 1); size_t budget = 300;
   forAll(m.labels, [&](const Vec& x) { if (!budget) return; --budget; double e = 0; for (size_t i = 0; i < sc.size(); ++i) e += sc[i] * m.factorValue(i, x); CHECK_NEAR(vg.evaluate(x.begin()), e, 1e-12, "objective of the model of views"); });
}
template<class GM> static void explicitCopies(pbt::Ctx& c) {
   Model m = baseModel(c, false); GM gm = buildAll<GM>(m); c.nontrivialIf(m.order() > 1 && m.factors.size() > 1);
   opengm::ExplicitStorage<GM> st(gm);
   for (size_t i = 0; i < m.factors.size(); ++i) { auto p = st[gm[i]]; size_t k = 0; forAll(shapeOf(m, m.factors[i].vars), [&](const Vec& x) { CHECK_NEAR((double)p[k], m.funcs[m.factors[i].f].eval(x), 1e-12, "explicit storage, factor " << i << " entry " << k); ++k; }); }
   typedef opengm::ConvertToExplicit<GM> CV; typename CV::ExplicitGraphicalModelType eg; CV::convert(gm, eg);
   CHECK_EQ((size_t)eg.numberOfVariables(), m.n(), "variables"); CHECK_EQ((size_t)eg.numberOfFactors(), m.factors.size(), "factors");
   for (size_t v = 0; v < m.n(); ++v) CHECK_EQ((size_t)eg.numberOfLabels(v), m.labels[v], "labels");
   for (size_t i = 0; i < m.factors.size(); ++i) { CHECK(Vec(eg[i].variableIndicesBegin(), eg[i].variableIndicesEnd()) == m.factors[i].vars, "scope of factor " << i);
      forAll(shapeOf(m, m.factors[i].vars), [&](const Vec& x0) { Vec x = x0; if (x.empty()) x.push_back(0); CHECK_NEAR((double)eg[i](x.begin()), m.funcs[m.factors[i].f].eval(x0), 1e-12, "explicit model, factor " << i); }); }
}
PROP(explicit_copies, 4000, 150000) { explicitCopies<SumGMs::All>(c); }
PROP(explicit_copies_permuted, 2000, 100000) { explicitCopies<SumGMs::Permuted>(c); }
