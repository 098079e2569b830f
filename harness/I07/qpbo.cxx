#include "solve.hxx"
#include <opengm/inference/qpbo.hxx>
#include <opengm/inference/auxiliary/minstcutboost.hxx>
using namespace gen;
using pbt::Ctx;

// local-polytope value at half-integral variable marginals h/2
inline double relaxed(const Model& m, const Vec& h) {
   double r = 0; for (size_t f = 0; f < m.factors.size(); ++f) { auto& vs = m.factors[f].vars; Vec x(m.n(), 0); double v[4]; if (vs.empty()) { r += m.factorValue(f, x); continue; } for (int k = 0; k < 4; ++k) { x[vs[0]] = k & 1; if (vs.size() > 1) x[vs[1]] = k >> 1; v[k] = m.factorValue(f, x); }
      double a = h[vs[0]] / 2.0; if (vs.size() == 1) { r += (1 - a) * v[0] + a * v[1]; continue; } double b = h[vs[1]] / 2.0, best = HUGE_VAL; double ts[] = {std::max(0.0, a + b - 1), std::min(a, b)}; for (double t : ts) best = std::min(best, t * v[3] + (a - t) * v[1] + (b - t) * v[2] + (1 - a - b + t) * v[0]); r += best; }
   return r;
}
// oracles: brute force for persistency, enumeration of the half-integral points of the linear relaxation for strength
template<class CUT> void test(Ctx& c, const char* name) {
   typedef SumGMs::All GM; typedef opengm::QPBO<GM, CUT> S;
   Opt o; o.maxVars = c.flip(0.2) ? 8 : 6; o.binary = true; o.maxFactors = 16; o.maxOrder = 2; o.maxConfigs = 256; o.dyadic = true; o.submodular = c.flip(0.3); Model m = genModel(c, o); 
   c.note(m.str()); auto gm = buildAll<GM>(m); typename S::Parameter p; S s(gm, p); size_t rounds = 1 + c.upTo(1);
   bool sub = true; for (size_t f = 0; f < m.factors.size(); ++f) if (m.factors[f].vars.size() == 2) { Vec x(m.n(), 0); double v[4]; for (int k = 0; k < 4; ++k) { x[m.factors[f].vars[0]] = k & 1; x[m.factors[f].vars[1]] = k >> 1; v[k] = m.factorValue(f, x); } sub = sub && v[0] + v[3] <= v[1] + v[2]; }
   double best = HUGE_VAL; std::vector<Vec> opt; Vec sh(m.labels); forAll(sh, [&](const Vec& x) { double v = m.value(x, false); if (v < best) { best = v; opt.clear(); } if (v == best) opt.push_back(x); });
   double lp = HUGE_VAL; Vec all; if (m.n() <= 6) forAll(Vec(m.n(), 3), [&](const Vec& h) { double v = relaxed(m, h); if (v < lp) { lp = v; all = h; } else if (v == lp) for (size_t i = 0; i < h.size(); ++i) if (all[i] != h[i]) all[i] = 9; });
   for (size_t r = 0; r < rounds; ++r) {
      CHECK(s.infer() == opengm::NORMAL, "terminates normally"); Vec x = argOf(c, s, m, name); std::vector<bool> known; double share = s.partialOptimality(known); CHECK_EQ(known.size(), m.n(), "one flag per variable"); size_t k = 0; for (size_t i = 0; i < m.n(); ++i) k += known[i]; CHECK_NEAR(share, (double)k / m.n(), 1e-12, "share of labelled variables");
      bool found = false; for (auto& y : opt) { bool ok = true; for (size_t i = 0; i < m.n(); ++i) ok = ok && (!known[i] || y[i] == x[i]); found = found || ok; }
      // the labels, with one half for the others, are optimal for the relaxation; and what all its optima agree on is labelled
      if (m.n() <= 6) { Vec h(m.n()); for (size_t i = 0; i < m.n(); ++i) h[i] = known[i] ? 2 * x[i] : 1; CHECK_EQ(relaxed(m, h), lp, "relaxation value of the partial labeling " << pbt::vec(h) << " (1: not labelled)"); for (size_t i = 0; i < m.n(); ++i) if (all[i] != 1 && all[i] != 9) CHECK(known[i] && 2 * x[i] == all[i], "variable " << i << " is " << all[i] / 2 << " in all optima of the relaxation, but not labelled"); }
      CHECK(found, "no optimal labeling agrees with " << pbt::vec(x) << " on the labelled variables"); if (sub) { double v = m.value(x, false); CHECK_EQ(v, best, "submodular model: value of " << pbt::vec(x)); }
      CHECK_EQ((double)s.value(), m.value(x, false), "reported value");
      if (r == 0) { c.labelIf(k == m.n(), "all labelled"); c.labelIf(k && k < m.n(), "some labelled"); c.labelIf(!k, "none labelled"); c.labelIf(sub, "submodular"); c.nontrivialIf(k && m.order() > 1 && m.n() > 2); }
   }
   c.label(name);
}
typedef opengm::MinSTCutBoost<size_t, double, opengm::PUSH_RELABEL> PR; typedef opengm::MinSTCutBoost<size_t, double, opengm::EDMONDS_KARP> EK; typedef opengm::MinSTCutBoost<size_t, double, opengm::KOLMOGOROV> KO;
PROP(roof_duality, 5000, 150000) { switch (c.upTo(2)) { case 0: test<PR>(c, "push-relabel"); break; case 1: test<EK>(c, "edmonds-karp"); break; default: test<KO>(c, "kolmogorov"); } }
