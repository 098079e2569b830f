#pragma once
#include "solve.hxx"
#include <opengm/operations/integrator.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>
#include <opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx>
using namespace gen;
using pbt::Ctx;

enum Acc { SUM, MIN, MAX };
inline double join(Acc a, double x, double y) { return a == SUM ? x + y : a == MIN ? std::min(x, y) : std::max(x, y); }
// the factors connected to a set of variables (constants excluded)
inline std::vector<size_t> component(const Model& m, const Vec& vars) {
   std::vector<bool> in(m.n()), fin(m.factors.size()); for (size_t v : vars) in[v] = true;
   for (bool grown = true; grown;) { grown = false; for (size_t i = 0; i < m.factors.size(); ++i) if (!fin[i]) for (size_t v : m.factors[i].vars) if (in[v]) { fin[i] = grown = true; for (size_t w : m.factors[i].vars) in[w] = true; break; } }
   std::vector<size_t> r; for (size_t i = 0; i < fin.size(); ++i) if (fin[i]) r.push_back(i); return r;
}
// accumulation over all variables but vars of the combined factors of their component, as a table over vars (first variable fastest)
inline DVec marginalOf(const Model& m, const Vec& vars, bool mult, Acc acc, bool normalized) {
   auto fs = component(m, vars); Vec used, sh, pos(m.n(), m.n()); for (size_t v : vars) { pos[v] = used.size(); used.push_back(v); } for (size_t f : fs) for (size_t v : m.factors[f].vars) if (pos[v] == m.n()) { pos[v] = used.size(); used.push_back(v); } for (size_t v : used) sh.push_back(m.labels[v]);
   size_t sz = 1; for (size_t v : vars) sz *= m.labels[v]; DVec r(sz, acc == SUM ? 0 : acc == MIN ? HUGE_VAL : -HUGE_VAL); Vec x(m.n(), 0);
   forAll(sh, [&](const Vec& l) { for (size_t k = 0; k < used.size(); ++k) x[used[k]] = l[k]; double v = mult ? 1 : 0; for (size_t f : fs) { double w = m.factorValue(f, x); v = mult ? v * w : v + w; } size_t k = 0, st = 1; for (size_t u : vars) { k += st * x[u]; st *= m.labels[u]; } r[k] = join(acc, r[k], v); });
   if (normalized) { double t = r[0]; for (size_t k = 1; k < r.size(); ++k) t = join(acc, t, r[k]); for (double& v : r) v = mult ? v / t : v - t; }
   return r;
}
template<class F> DVec table(const F& f) { DVec r; for (size_t i = 0; i < f.size(); ++i) r.push_back(f(i)); return r; }
inline void near(Ctx& c, const DVec& a, const DVec& b, double tol, const std::string& what) {
   CHECK_EQ(a.size(), b.size(), what << ": size"); for (size_t i = 0; i < a.size(); ++i) CHECK(std::fabs(a[i] - b[i]) <= tol * (1 + std::fabs(b[i])), what << ": " << pbt::vec(a) << " expected " << pbt::vec(b));
}
inline Opt mpOpts(Ctx& c, bool mult, bool tree) { Opt o; o.maxVars = 7; o.maxLabels = 4; o.maxFactors = 10; o.maxConfigs = 1500; o.maxOrder = c.pick({2, 3, 4}); o.positive = mult; o.tree = tree; o.dyadic = !mult && c.flip(); if (c.flip(0.2)) o.amp = 1; return o; }

// weights of the factors: one for belief propagation, else as given or the share of spanning trees with the factor
inline DVec weights(Ctx&, const Model& m, opengm::meta::EmptyType&, bool) { return DVec(m.factors.size(), 1.0); }
inline DVec weights(Ctx& c, const Model& m, std::vector<double>& rho, bool given) {
   if (given) { rho.clear(); for (size_t f = 0; f < m.factors.size(); ++f) rho.push_back(c.pick({0.5, 0.75, 1.0})); c.note("rho " + pbt::vec(rho)); c.label("given weights"); return rho; }
   auto gm = buildExplicit<SumGMs::Expl>(m); opengm::GraphicalModelDecomposer<SumGMs::Expl> d; auto t = d.decomposeIntoSpanningTrees(gm); DVec r; for (size_t f = 0; f < m.factors.size(); ++f) r.push_back((double)t.getFactorLists()[f].size() / t.numberOfSubModels()); c.labelIf(t.numberOfSubModels() > 1, "several trees"); return r;
}
template<class GM, class ACC, class RULES, class P> void setParameters(Ctx& c, const Model& m, P& p, int& mode, bool tree) {
   typedef typename P::SpecialParameterType SP; (void)sizeof(SP);
   mode = tree ? c.upTo(3) : 1 + c.upTo(1); p.useNormalization_ = !tree || c.flip(0.7); if (c.flip(0.2)) p.useNormalization_ = opengm::Tribool(opengm::Tribool::Maybe);
   p.maximumNumberOfSteps_ = 30; if (mode && c.flip()) { p.damping_ = c.pick({0.3, 0.5, 0.8, 1.0}); p.maximumNumberOfSteps_ = 500; }
   if (!tree) { p.damping_ = c.pick({0.0, 0.3, 0.5}); p.maximumNumberOfSteps_ = 600; }
   p.isAcyclic_ = mode == 0 ? (c.flip() ? opengm::Tribool::True : opengm::Tribool::Maybe) : tree ? opengm::Tribool::False : c.flip() ? opengm::Tribool::False : opengm::Tribool::Maybe; p.inferSequential_ = mode == 2; if (c.flip()) { Vec o = c.perm(m.n()); p.sortedNodeList_.assign(o.begin(), o.end()); }
   c.note(pbt::str("mode ", mode, " (0 acyclic, 1 parallel, 2 sequential, 3 propagate) damping ", (double)p.damping_, " normalization ", (int)(p.useNormalization_ == true), " order ", pbt::vec(p.sortedNodeList_)));
}

template<class G, class ACC, template<class, class, class> class RULES> void tree(Ctx& c, bool mult, Acc acc, bool trbp) {
   typedef typename G::All GM; typedef RULES<GM, ACC, opengm::MessageBuffer<marray::Marray<double> > > R; typedef opengm::MessagePassing<GM, ACC, R, opengm::MaxDistance> S;
   Opt o = mpOpts(c, mult, true); Model m = genModel(c, o); c.note(m.str()); auto gm = buildAll<GM>(m); typename S::Parameter p; int mode; setParameters<GM, ACC, R>(c, m, p, mode, true);
   bool copyParam = c.flip(); typename S::Parameter q(p); S s(gm, copyParam ? q : p); size_t rounds = 1 + c.upTo(1);
   for (size_t round = 0; round < rounds; ++round) {
      if (round) { if (c.flip()) s.reset(); c.label("again"); }
      if (mode == 3) for (size_t k = 0; k < 30; ++k) s.propagate(0); else CHECK(s.infer() == opengm::NORMAL, "terminates normally");
      bool norm = mode == 0 && p.useNormalization_ == opengm::Tribool::Maybe ? false : (bool)(p.useNormalization_ == true); double tol = p.damping_ != 0 && p.damping_ != 1 ? 1e-6 : 1e-9; typename GM::IndependentFactorType out;
      for (size_t v = 0; v < m.n(); ++v) { CHECK(s.marginal(v, out) == opengm::NORMAL, "marginal"); CHECK_EQ(out.numberOfVariables(), (size_t)1, "variables of a marginal"); CHECK_EQ((size_t)out.variableIndex(0), v, "variable of a marginal"); near(c, table(out), marginalOf(m, Vec(1, v), mult, acc, norm), tol, pbt::str("marginal of variable ", v)); }
      for (size_t f = 0; f < m.factors.size(); ++f) if (m.factors[f].vars.size()) { CHECK(s.factorMarginal(f, out) == opengm::NORMAL, "factor marginal"); CHECK_EQ((size_t)out.numberOfVariables(), m.factors[f].vars.size(), "variables of a factor marginal"); for (size_t k = 0; k < m.factors[f].vars.size(); ++k) CHECK_EQ((size_t)out.variableIndex(k), m.factors[f].vars[k], "variable of a factor marginal"); near(c, table(out), marginalOf(m, m.factors[f].vars, mult, acc, norm), tol, pbt::str("marginal of factor ", f)); }
      if (acc != SUM && (norm || !mult)) { Vec x = argOf(c, s, m, "message passing"); double best = sortedValues(m, mult, acc == MAX)[0], v = m.value(x, mult); CHECK(std::fabs(v - best) <= 1e-4 * std::fabs(best), "labeling " << pbt::vec(x) << " has value " << v << ", the optimum is " << best); CHECK_NEAR((double)s.value(), v, 1e-9 * (1 + std::fabs(v)), "reported value"); }
   }
   c.label(mode == 0 ? "acyclic" : mode == 1 ? "parallel" : mode == 2 ? "sequential" : "propagate"); c.labelIf(p.damping_ != 0, "damping"); c.nontrivialIf(m.order() > 1 && m.nConfigs() > 3);
}
// any graph: a fixed point of the messages has consistent marginals
template<class G, class ACC, template<class, class, class> class RULES> void loopy(Ctx& c, bool mult, Acc acc, bool trbp) {
   typedef typename G::All GM; typedef RULES<GM, ACC, opengm::MessageBuffer<marray::Marray<double> > > R; typedef opengm::MessagePassing<GM, ACC, R, opengm::MaxDistance> S;
   Opt o = mpOpts(c, mult, false); o.maxVars = 5; if (trbp) o.order0 = false; Model m = genModel(c, o); c.note(m.str()); auto gm = buildAll<GM>(m); typename S::Parameter p; int mode; setParameters<GM, ACC, R>(c, m, p, mode, false); p.useNormalization_ = true; DVec rho = weights(c, m, p.specialParameter_, m.n() > 1 && c.flip(0.3)); S s(gm, p); CHECK(s.infer() == opengm::NORMAL, "terminates normally");
   std::vector<DVec> var(m.n()); typename GM::IndependentFactorType out; for (size_t v = 0; v < m.n(); ++v) { s.marginal(v, out); var[v] = table(out); CHECK_EQ(var[v].size(), m.labels[v], "size of a marginal"); double t = var[v][0]; for (size_t k = 1; k < var[v].size(); ++k) t = join(acc, t, var[v][k]); CHECK_NEAR(t, (mult ? 1.0 : 0.0), 1e-9, "normalization of variable " << v); }
   bool fix = s.convergence() < 1e-10 && s.convergenceFX() < 1e-10; c.labelIf(fix, "fixed point"); bool two = false; std::vector<DVec> fac;
   for (size_t f = 0; f < m.factors.size(); ++f) { auto& vs = m.factors[f].vars; if (vs.empty()) { fac.push_back(DVec()); continue; } s.factorMarginal(f, out); DVec t = table(out); fac.push_back(t); double z = t[0]; for (size_t k = 1; k < t.size(); ++k) z = join(acc, z, t[k]); CHECK_NEAR(z, (mult ? 1.0 : 0.0), 1e-9, "normalization of factor " << f);
      if (fix) for (size_t j = 0; j < vs.size(); ++j) { DVec r(m.labels[vs[j]], acc == SUM ? 0 : acc == MIN ? HUGE_VAL : -HUGE_VAL); Vec sh = shapeOf(m, vs); size_t k = 0; Vec l(vs.size(), 0); do { r[l[j]] = join(acc, r[l[j]], t[k++]); } while (nextCoord(sh, l)); near(c, r, var[vs[j]], 1e-6, pbt::str("marginal of variable ", vs[j], " in factor ", f)); two = two || vs.size() > 1; } }
   // the marginals reparametrize the model: their weighted combination is the model up to a constant
   if (fix) { double ref = 0, lo = 0, hi = 0; bool first = true; Vec x(m.n(), 0); Vec sh(m.labels); forAll(sh, [&](const Vec& l) { double v = 0; for (size_t i = 0; i < m.n(); ++i) { double w = 1; for (size_t f = 0; f < m.factors.size(); ++f) for (size_t u : m.factors[f].vars) if (u == i) w -= rho[f]; v += w * (mult ? std::log(var[i][l[i]]) : var[i][l[i]]); }
         for (size_t f = 0; f < m.factors.size(); ++f) { auto& vs = m.factors[f].vars; double g = m.factorValue(f, l); if (vs.empty()) continue; size_t k = 0, st = 1; for (size_t u : vs) { k += st * l[u]; st *= m.labels[u]; } v += rho[f] * (mult ? std::log(fac[f][k]) : fac[f][k]) - (mult ? std::log(g) : g); }
         if (first) { lo = hi = v; first = false; } lo = std::min(lo, v); hi = std::max(hi, v); ref = std::max(ref, std::fabs(v)); });
      CHECK(hi - lo <= 1e-5 * (1 + ref), "the marginals do not combine to the model: offsets between " << lo << " and " << hi << ", weights " << pbt::vec(rho)); }
   // inference after reset() computes what a new solver computes
   if (c.flip(0.3)) { s.reset(); CHECK(s.infer() == opengm::NORMAL, "terminates normally"); S s2(gm, p); s2.infer(); typename GM::IndependentFactorType out2; for (size_t v = 0; v < m.n(); ++v) { s.marginal(v, out); s2.marginal(v, out2); near(c, table(out), table(out2), 0, pbt::str("marginal of variable ", v, " after reset")); } c.label("reset"); }
   if (acc != SUM) argOf(c, s, m, "message passing"); c.nontrivialIf(fix && two && m.nConfigs() > 3);
}
#define SEMIRINGS(W, R, T) switch (c.upTo(4)) { case 0: W<MulGMs, opengm::Integrator, R>(c, true, SUM, T); break; case 1: W<MulGMs, opengm::Maximizer, R>(c, true, MAX, T); break; case 2: W<MulGMs, opengm::Minimizer, R>(c, true, MIN, T); break; case 3: W<SumGMs, opengm::Minimizer, R>(c, false, MIN, T); break; default: W<SumGMs, opengm::Maximizer, R>(c, false, MAX, T); }
