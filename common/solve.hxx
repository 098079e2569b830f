// Helpers shared by the harnesses of the inference algorithms.
#pragma once
#include "gen_model.hxx"
#include <opengm/inference/inference.hxx>
namespace gen {
// the solver's labeling, checked to be one in-range label per variable
template<class S> Vec argOf(pbt::Ctx& c, const S& s, const Model& m, const char* what, size_t k = 1) {
   std::vector<typename S::LabelType> a; opengm::InferenceTermination t = s.arg(a, k);
   CHECK(t == opengm::NORMAL, what << ": arg() does not return NORMAL");
   CHECK_EQ(a.size(), m.n(), what << ": labels in the result");
   Vec r(a.begin(), a.end());
   for (size_t i = 0; i < r.size(); ++i) CHECK(r[i] < m.labels[i], what << ": label " << r[i] << " of variable " << i << " out of range");
   return r;
}
template<class GM> double evalOf(const GM& gm, const Vec& x) { std::vector<typename GM::LabelType> l(x.begin(), x.end()); return gm.evaluate(l.begin()); }
inline bool notWorse(double a, double b, bool mx, double tol = 0) { return mx ? a >= b - tol : a <= b + tol; }
// all values in the order of the sense
inline DVec sortedValues(const Model& m, bool mult, bool mx) { DVec v; forAll(m.labels, [&](const Vec& x) { v.push_back(m.value(x, mult)); }); std::sort(v.begin(), v.end()); if (mx) std::reverse(v.begin(), v.end()); return v; }
}
