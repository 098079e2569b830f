// Gibbs sampling against a record of the visited states and the exact distribution.
#include "solve.hxx"
#include <opengm/inference/gibbs.hxx>
#include <opengm/inference/visitors/visitors.hxx>
using namespace gen;
using pbt::Ctx;
template<class GM, class ACC> struct Trace {
   typedef opengm::Gibbs<GM, ACC> S;
   Ctx& c; const Model& m; bool mult; opengm::GibbsMarginalVisitor<S> inner; std::vector<Vec> sets; size_t stopAt = 0;
   size_t begins = 0, steps = 0, ends = 0, counted = 0, moved = 0; double best = 0; Vec bestX, last; std::vector<std::map<Vec, size_t> > hist;
   Trace(Ctx& ctx, const Model& model, bool mu, const GM& gm) : c(ctx), m(model), mult(mu), inner(gm) { if (c.flip()) inner.assign(gm); if (c.flip(0.3)) { opengm::GibbsMarginalVisitor<S> d; d.assign(gm); inner = d; } }
   double tol(double v) const { return 1e-9 * (1 + std::fabs(v)); }
   Vec stateOf(const S& s) { Vec x; for (size_t v = 0; v < m.n(); ++v) { x.push_back(s.markovState(v)); CHECK(x[v] < m.labels[v], "state " << x[v] << " of variable " << v << " out of range"); } return x; }
   void see(S& s) {
      Vec x = stateOf(s); double v = m.value(x, mult); CHECK_NEAR((double)s.markovValue(), v, tol(v), "value of the chain's state " << pbt::vec(x));
      if (bestX.empty() || (ACC::bop(v, best) && std::fabs(v - best) > tol(best))) { best = v; bestX = x; } last = x;
      Vec b; for (size_t k = 0; k < m.n(); ++k) b.push_back(s.currentBestState(k)); double w = m.value(b, mult); CHECK_NEAR((double)s.currentBestValue(), w, tol(w), "value of the best state " << pbt::vec(b)); CHECK_NEAR(w, best, tol(best), "best visited so far");
   }
   void begin(S& s) { CHECK_EQ(begins, size_t(0), "begin() twice"); ++begins; see(s); inner.begin(s); }
   size_t operator()(S& s) {
      Vec before = last; CHECK(begins && !ends, "step outside begin() and end()"); ++steps; see(s); size_t k0 = inner.numberOfSamples(), a0 = inner.numberOfAcceptedSamples(), r0 = inner.numberOfRejectedSamples(); auto r = inner(s); CHECK(r == opengm::visitors::VisitorReturnFlag::ContinueInf, "the marginal visitor stops");
      size_t d = 0; for (size_t v = 0; v < m.n(); ++v) d += before[v] != last[v]; CHECK(d <= 1, "a step changes " << d << " variables"); CHECK_EQ((bool)s.moveAccepted(), d == 1, "accepted flag"); moved += d;
      if (inner.numberOfSamples() != k0) { CHECK_EQ(inner.numberOfSamples(), k0 + 1, "samples per step"); CHECK_EQ(inner.numberOfAcceptedSamples(), a0 + d, "accepted samples"); CHECK_EQ(inner.numberOfRejectedSamples(), r0 + 1 - d, "rejected samples"); ++counted; for (size_t k = 0; k < sets.size(); ++k) { Vec y; for (size_t v : sets[k]) y.push_back(last[v]); ++hist[k][y]; } }
      else { CHECK(inner.numberOfAcceptedSamples() == a0 && inner.numberOfRejectedSamples() == r0, "acceptance counted without a sample"); CHECK_EQ(counted, size_t(0), "a step of the burn-in after a counted sample"); }
      return steps == stopAt ? opengm::visitors::VisitorReturnFlag::StopInfTimeout : opengm::visitors::VisitorReturnFlag::ContinueInf;
   }
   void end(S& s) { inner.end(s); ++ends; }
};
template<class GM, class ACC> typename opengm::Gibbs<GM, ACC>::Parameter params(Ctx& c, const Model& m, size_t steps, size_t burn) {
   typedef opengm::Gibbs<GM, ACC> S; typedef typename S::Parameter P; bool temp = c.flip(0.3), cyc = c.flip(0.4); std::vector<size_t> start; if (c.flip()) for (size_t l : m.labels) start.push_back(c.upTo(l - 1));
   c.note(pbt::str("steps ", steps, " burn-in ", burn, temp ? " annealed" : "", cyc ? " cyclic" : "", " start ", pbt::vec(start))); c.label(temp ? "annealed" : "plain"); c.label(cyc ? "cyclic" : "random");
   return P(steps, burn, temp, c.pick({0.0001, 0.5, 1.0}), 1.0, c.range(1, 12), cyc ? P::CYCLIC : P::RANDOM, start);
}
template<class G, class ACC> static void history(Ctx& c, bool mult) {
   typedef typename G::All GM; typedef opengm::Gibbs<GM, ACC> S; Opt o; o.maxVars = 6; o.maxLabels = 4; o.positive = mult; o.dyadic = true; if (c.flip(0.3)) o.amp = 1; Model m = genModel(c, o); c.note(m.str()); auto gm = buildAll<GM>(m);
   size_t steps = c.large(0, 400), burn = c.flip() ? 0 : c.upTo(200); auto p = params<GM, ACC>(c, m, steps, burn); srand(c.upTo(1000000)); S s(gm, p); if (c.flip(0.3)) { std::vector<typename GM::LabelType> x; for (size_t l : m.labels) x.push_back(c.upTo(l - 1)); s.setStartingPoint(x.begin()); c.label("starting point set"); }
   size_t runs = 1 + c.upTo(1); Vec first;
   for (size_t r = 0; r < runs; ++r) {
      if (r && c.flip()) { s.reset(); c.label("reset"); Vec x; for (size_t v = 0; v < m.n(); ++v) x.push_back(s.markovState(v)); Vec want(m.n(), 0); if (p.startPoint_.size()) want.assign(p.startPoint_.begin(), p.startPoint_.end()); CHECK(x == want, "state after reset"); }
      else if (r) { // the best of the previous run counts in the next one
      }
      Trace<GM, ACC> t(c, m, mult, gm); if (r) { Vec b; for (size_t k = 0; k < m.n(); ++k) b.push_back(s.currentBestState(k)); t.bestX = b; t.best = m.value(b, mult); }
      size_t k = c.upTo(3); for (size_t i = 0; i < k; ++i) { Vec s1 = c.subsetOf(m.n(), 0.5); if (s1.empty()) s1.push_back(c.upTo(m.n() - 1)); if (s1.size() > 3) s1.resize(3); size_t id = s1.size() == 1 && c.flip() ? t.inner.addMarginal(s1[0]) : t.inner.addMarginal(s1.begin(), s1.end()); CHECK_EQ(id, i, "number of a marginal"); t.sets.push_back(s1); } t.hist.resize(k); CHECK_EQ(t.inner.numberOfMarginals(), k, "number of marginals");
      if (c.flip(0.3)) t.stopAt = c.range(1, 60);
      CHECK(s.infer(t) == opengm::NORMAL, "terminates normally"); CHECK_EQ(t.ends, size_t(1), "calls of end()"); CHECK_EQ(t.inner.numberOfSamples(), t.counted, "number of samples"); CHECK_EQ(t.inner.numberOfAcceptedSamples() + t.inner.numberOfRejectedSamples(), t.counted, "accepted and rejected samples"); CHECK(t.steps <= steps + burn && t.counted <= steps, t.steps << " steps with " << t.counted << " samples"); if (!burn) CHECK_EQ(t.counted, t.steps, "samples without burn-in"); if (t.stopAt && t.steps >= t.stopAt) { CHECK_EQ(t.steps, t.stopAt, "steps after the visitor's stop"); c.label("stopped"); }
      for (size_t i = 0; i < k; ++i) { auto& f = t.inner.marginal(i); CHECK_EQ((size_t)f.numberOfVariables(), t.sets[i].size(), "variables of a marginal"); Vec sh; for (size_t v = 0; v < t.sets[i].size(); ++v) { CHECK_EQ((size_t)f.variableIndex(v), t.sets[i][v], "variable of a marginal"); sh.push_back(m.labels[t.sets[i][v]]); CHECK_EQ((size_t)f.numberOfLabels(v), sh[v], "labels of a marginal"); } double total = 0; forAll(sh, [&](const Vec& y) { double n = f(y.begin()); auto it = t.hist[i].find(y); double want = it == t.hist[i].end() ? 0 : it->second; CHECK_EQ(n, want, "samples with labels " << pbt::vec(y) << " of variables " << pbt::vec(t.sets[i])); total += n; }); CHECK_EQ(total, (double)t.counted, "sum of a marginal"); }
      Vec x = argOf(c, s, m, "Gibbs"); double v = m.value(x, mult); CHECK_NEAR((double)s.value(), v, t.tol(v), "reported value"); CHECK_NEAR(v, t.best, t.tol(t.best), "the result " << pbt::vec(x) << " is not as good as the best visited state " << pbt::vec(t.bestX)); c.labelIf(t.moved > 0, "moves"); c.labelIf(t.counted > 0 && k > 0, "marginals");
      c.nontrivialIf(t.steps > 5 && t.moved > 0 && m.order() > 1);
   }
}
PROP(history_sum, 1500, 60000) { history<SumGMs, opengm::Minimizer>(c, false); }
PROP(history_product, 1500, 60000) { history<MulGMs, opengm::Maximizer>(c, true); }

template<class G, class ACC> static void distribution(Ctx& c, bool mult) {
   typedef typename G::All GM; typedef opengm::Gibbs<GM, ACC> S; typedef typename S::Parameter P; Opt o; o.maxVars = 4; o.maxLabels = 3; o.maxConfigs = 16; o.positive = mult; o.amp = 1; Model m = genModel(c, o); 
   double lo = HUGE_VAL, hi = -HUGE_VAL, z = 0; auto w = [&](const Vec& x) { double v = m.value(x, mult); return mult ? v : std::exp(-v); }; forAll(m.labels, [&](const Vec& x) { double v = w(x); lo = std::min(lo, v); hi = std::max(hi, v); z += v; }); if (!(lo > 0) || hi > 40 * lo) throw pbt::Discard{}; c.note(m.str()); auto gm = buildAll<GM>(m);
   bool temp = c.flip(0.3), cyc = c.flip(0.4); size_t seed = c.upTo(1000000), n = 20000, burn = c.upTo(500); c.note(pbt::str("seed ", seed, temp ? " temperature 1" : "", cyc ? " cyclic" : "")); c.label(temp ? "temperature 1" : "plain"); c.label(cyc ? "cyclic" : "random");
   Vec all; for (size_t v = 0; v < m.n(); ++v) all.push_back(v); DVec d(m.n() + 1), bound(m.n() + 1); size_t variable = 0; for (size_t l : m.labels) variable += l > 1; if (!variable) throw pbt::Discard{};
   // a deviation counts only when it persists in two much longer runs
   for (size_t attempt = 0;; ++attempt) {
      srand(seed + attempt); S s(gm, P(n, burn, temp, 1.0, 1.0, 10, cyc ? P::CYCLIC : P::RANDOM)); opengm::GibbsMarginalVisitor<S> v(gm); v.addMarginal(all.begin(), all.end()); for (size_t k : all) v.addMarginal(k); s.infer(v);
      double N = v.numberOfSamples(); CHECK(N >= n / 10., "only " << N << " samples"); double tv = 0; forAll(m.labels, [&](const Vec& x) { tv += std::fabs(v.marginal(0)(x.begin()) / N - w(x) / z) / 2; }); double worst = tv; for (size_t k : all) for (size_t l = 0; l < m.labels[k]; ++l) { double p = 0; forAll(m.labels, [&](const Vec& x) { if (x[k] == l) p += w(x) / z; }); double q = v.marginal(k + 1)(l) / N; worst = std::max(worst, std::fabs(p - q)); }
      if (worst <= (attempt ? 0.05 : 0.08)) break; CHECK(attempt < 2, "after " << N << " samples the estimates differ from the distribution by " << worst); n = 400000 << attempt; c.label("long run");
   }
   c.nontrivialIf(m.order() > 1 && m.nConfigs() > 3 && hi > 2 * lo);
}
PROP(distribution_sum, 400, 3000) { distribution<SumGMs, opengm::Minimizer>(c, false); }
PROP(distribution_product, 400, 3000) { distribution<MulGMs, opengm::Maximizer>(c, true); }
