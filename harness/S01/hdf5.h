#include "gen_model.hxx"
#include <opengm/graphicalmodel/graphicalmodel_hdf5.hxx>
#include <unistd.h>
using namespace gen;
inline std::string scratchFile() { const char* d = getenv("PBT_SCRATCH"); return std::string(d ? d : "/tmp") + "/s01-" + std::to_string(getpid()) + ".h5"; }
struct TempFile { std::string path; TempFile() : path(scratchFile()) { ::unlink(path.c_str()); } ~TempFile() { ::unlink(path.c_str()); } };
template<class A, class B> static void sameModel(pbt::Ctx& c, const A& a, const B& b, const Model& m, double tol) {
   CHECK_EQ((size_t)b.numberOfVariables(), m.n(), "variables"); CHECK_EQ((size_t)b.numberOfFactors(), m.factors.size(), "factors"); CHECK_EQ((size_t)b.factorOrder(), m.order(), "factor order");
   for (size_t v = 0; v < m.n(); ++v) { CHECK_EQ((size_t)b.numberOfLabels(v), m.labels[v], "labels of variable " << v); CHECK_EQ((size_t)b.numberOfFactors(v), (size_t)a.numberOfFactors(v), "factors of variable " << v); for (size_t k = 0; k < a.numberOfFactors(v); ++k) CHECK_EQ((size_t)b.factorOfVariable(v, k), (size_t)a.factorOfVariable(v, k), "factor " << k << " of variable " << v); }
   for (size_t i = 0; i < m.factors.size(); ++i) { const Vec& s = m.factors[i].vars; CHECK_EQ((size_t)b[i].numberOfVariables(), s.size(), "order of factor " << i); for (size_t j = 0; j < s.size(); ++j) { CHECK_EQ((size_t)b[i].variableIndex(j), s[j], "scope of factor " << i); CHECK_EQ((size_t)b[i].numberOfLabels(j), m.labels[s[j]], "labels in factor " << i); }
      forAll(shapeOf(m, s), [&](const Vec& x0) { Vec x(x0); if (x.empty()) x.push_back(0); CHECK_EQ((double)b[i](x.begin()), (double)a[i](x.begin()), "factor " << i << " at " << pbt::vec(x0)); CHECK_NEAR((double)b[i](x.begin()), m.funcs[m.factors[i].f].eval(x0), tol, "factor " << i << " at " << pbt::vec(x0)); }); 
      for (size_t k = 0; k < i; ++k) if (a[i].functionIndex() == a[k].functionIndex() && a[i].functionType() == a[k].functionType()) CHECK(b[i].functionIndex() == b[k].functionIndex() && b[i].functionType() == b[k].functionType(), "factors " << k << " and " << i << " shared a function"); }
   size_t budget = 100; forAll(m.labels, [&](const Vec& x) { if (!budget) return; --budget; CHECK_EQ((double)b.evaluate(x.begin()), (double)a.evaluate(x.begin()), "objective at " << pbt::vec(x)); });
}
inline Opt opts(pbt::Ctx& c) { Opt o; o.minVars = 1; o.maxVars = 6; o.maxLabels = 4; o.maxOrder = 4; o.minFactors = 0; o.maxFactors = 7; o.order0 = true; o.dupScopes = true; o.shareProb = 0.3; o.dyadic = true; if (c.flip(0.15)) o.maxOrder = 1; return o; }
template<class GM> GM build(const Model& m) { if constexpr (GM::NrOfFunctionTypes == 1) return buildExplicit<GM>(m); else return buildAll<GM>(m); }
template<class GM> typename GM::FunctionIdentifier addFunc(GM& g, const Func& f) { if constexpr (GM::NrOfFunctionTypes == 1) return g.addFunction(makeExplicit<typename GM::ValueType, typename GM::IndexType, typename GM::LabelType>(f)); else return AddAll<GM>::add(g, f); }
// write A, read into a fresh B (another function type list), optionally into a B that held another model before
template<class A, class B> static void hdf5Trip(pbt::Ctx& c, const Model& m, const Model* before, double tol = 1e-12) {
   c.note(m.str()); if (before) c.note("loaded over: " + before->str()); c.nontrivialIf(m.factors.size() > 1 && m.order() > 1); c.labelIf(m.factors.empty(), "no factors"); c.labelIf(before != 0, "over a used model");
   TempFile f; A a = build<A>(m); std::string name = c.pick({ "gm", "a", "graphical-model" }); opengm::hdf5::save(a, f.path, name);
   B b; if (before) b = build<B>(*before);
   opengm::hdf5::load(b, f.path, name); sameModel(c, a, b, m, tol);
   // a loaded model is an ordinary model: extend it and save it again
   if (c.flip(0.3)) { Model m2(m); Opt oe; oe.kinds = { EXPL }; oe.positive = !std::is_signed<typename A::ValueType>::value; Func fu = genFunc(c, oe, Vec(1, m.labels[0])); if (std::is_integral<typename A::ValueType>::value) for (double& v : fu.p) v = std::floor(v); m2.funcs.push_back(fu); Factor fa; fa.vars = Vec(1, 0); fa.f = m2.funcs.size() - 1; m2.factors.push_back(fa); c.label("extended");
      auto add = [&](auto& g) { auto id = addFunc(g, fu); g.addFactor(id, fa.vars.begin(), fa.vars.end()); }; add(a); add(b); sameModel(c, a, b, m2, tol); opengm::hdf5::save(b, f.path, "again"); A d; opengm::hdf5::load(d, f.path, "again"); sameModel(c, b, d, m2, tol); }
}
