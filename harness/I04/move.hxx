#pragma once
#include "solve.hxx"
#include <opengm/inference/movemaker.hxx>
#include <opengm/inference/bruteforce.hxx>
using namespace gen;
using pbt::Ctx;

// the value of the labeling, exact for the generated values; infinite sums compare equal
inline bool sameValue(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); }

// best value of the labelings that differ from x in the variables vs only (and in all of them if allChange)
inline bool bestOver(const Model& m, const Vec& x, const Vec& vs, bool allChange, bool mult, bool mx, double& best) {
   Vec sh; for (size_t v : vs) sh.push_back(m.labels[v]); bool any = false; Vec y(x);
   forAll(sh, [&](const Vec& l) { for (size_t k = 0; k < vs.size(); ++k) { if (allChange && l[k] == x[vs[k]]) return; y[vs[k]] = l[k]; } double w = m.value(y, mult); if (!any || (mx ? w > best : w < best)) best = w; any = true; });
   return any;
}

template<class G, class ACC> void history(Ctx& c, bool mult, bool mx) {
   typedef typename G::All GM; typedef opengm::Movemaker<GM> MM;
   Opt o; o.maxVars = 6; o.maxLabels = 4; o.maxFactors = 10; o.maxConfigs = 500; o.maxOrder = c.pick({2, 3, 4}); o.positive = mult; o.zeroValue = mult && mx; o.dyadic = true; o.infinite = !mult && c.flip(0.3) ? (mx ? -1 : 1) : 0;
   Model m = genModel(c, o); c.note(m.str()); auto gm = buildAll<GM>(m); size_t n = m.n();
   // with zero or infinite values local comparisons say nothing about the whole value
   Vec x(n, 0); std::unique_ptr<MM> mm; if (c.flip()) { for (size_t i = 0; i < n; ++i) x[i] = c.upTo(m.labels[i] - 1); mm.reset(new MM(gm, x.begin())); c.note("start " + pbt::vec(x)); } else mm.reset(new MM(gm));
   size_t steps = c.range(1, 12), moves = 0; bool infiniteSeen = false;
   auto check = [&](const char* what) {
      double v = m.value(x, mult); infiniteSeen = infiniteSeen || std::isinf(v);
      for (size_t i = 0; i < n; ++i) CHECK_EQ((size_t)mm->state(i), x[i], what << ": state of variable " << i);
      CHECK_EQ((size_t)std::distance(mm->stateBegin(), mm->stateEnd()), n, what << ": number of states"); CHECK(std::equal(x.begin(), x.end(), mm->stateBegin()), what << ": state iterators");
      CHECK(sameValue(mm->value(), v), what << ": value " << mm->value() << " but the labeling " << pbt::vec(x) << " has " << v);
   };
   check("start");
   for (size_t s = 0; s < steps; ++s) {
      Vec vs = n ? c.subset(n, c.range(1, std::min<size_t>(n, 4))) : Vec(); if (c.flip(0.3)) { Vec p = c.perm(vs.size()), q; for (size_t i : p) q.push_back(vs[i]); vs = q; }
      Vec to; for (size_t v : vs) to.push_back(c.upTo(m.labels[v] - 1)); Vec y(x); for (size_t k = 0; k < vs.size(); ++k) y[vs[k]] = to[k];
      switch (c.weighted({4, 4, 4, 4, 1, 1, 2, 2})) {
      case 0: { c.note(pbt::str("move ", pbt::vec(vs), " to ", pbt::vec(to))); double r = mm->move(vs.begin(), vs.end(), to.begin()); x = y; CHECK(sameValue(r, m.value(x, mult)), "value returned by move"); ++moves; check("move"); break; }
      case 1: { c.note(pbt::str("value after moving ", pbt::vec(vs), " to ", pbt::vec(to))); double r = mm->valueAfterMove(vs.begin(), vs.end(), to.begin()), v = m.value(y, mult); CHECK(sameValue(r, v), "valueAfterMove " << r << ", the labeling has " << v); check("valueAfterMove"); break; }
      case 2: case 3: {
         bool all = c.flip(); c.note(pbt::str("optimal move of ", pbt::vec(vs), all ? " with all labels changing" : "")); double old = m.value(x, mult), best = old; bool any = bestOver(m, x, vs, all, mult, mx, best);
         double r = all ? mm->template moveOptimallyWithAllLabelsChanging<ACC>(vs.begin(), vs.end()) : mm->template moveOptimally<ACC>(vs.begin(), vs.end());
         Vec now(mm->stateBegin(), mm->stateEnd()); bool others = true; for (size_t i = 0; i < n; ++i) { CHECK(now[i] < m.labels[i], "label out of range"); others = others && (now[i] == x[i] || std::find(vs.begin(), vs.end(), i) != vs.end()); } CHECK(others, "an optimal move changes other variables: " << pbt::vec(x) << " to " << pbt::vec(now));
         if (!any || !(mx ? best > old : best < old)) best = old; bool moved = now != x; if (all && moved) for (size_t v : vs) CHECK(now[v] != x[v], "variable " << v << " keeps its label");
         double got = m.value(now, mult); CHECK(sameValue(got, best), "optimal move from " << pbt::vec(x) << " (" << old << ") to " << pbt::vec(now) << " (" << got << "), best is " << best); CHECK(sameValue(r, got), "value returned by the optimal move"); if (!std::isinf(old) && !(mult && mx && old == 0)) CHECK(!moved || got != old, "moves without improvement");
         x = now; ++moves; check("optimal move"); c.labelIf(moved, "optimal-move"); break; }
      case 4: mm->reset(); c.note("reset"); x.assign(n, 0); check("reset"); break;
      case 5: for (size_t i = 0; i < n; ++i) x[i] = c.upTo(m.labels[i] - 1); c.note("initialize " + pbt::vec(x)); mm->initialize(x.begin()); check("initialize"); break;
      case 6: { // a copy is independent
         MM other(*mm); other.move(vs.begin(), vs.end(), to.begin()); CHECK(sameValue(other.value(), m.value(y, mult)), "value of a moved copy"); check("copy"); break; }
      default: { // inference over a subset given the rest
         std::sort(vs.begin(), vs.end()); c.note(pbt::str("propose ", pbt::vec(vs))); typedef opengm::Bruteforce<typename MM::SubGmType, ACC> BF; std::vector<typename GM::LabelType> st; typename BF::Parameter p; double best = m.value(x, mult); bestOver(m, x, vs, false, mult, mx, best);
         mm->template proposeMoveAccordingToInference<BF, typename BF::Parameter, Vec::iterator, Vec::iterator>(p, vs.begin(), vs.end(), st); CHECK_EQ(st.size(), vs.size(), "proposed labels"); Vec z(x); for (size_t k = 0; k < vs.size(); ++k) { CHECK(st[k] < m.labels[vs[k]], "proposed label out of range"); z[vs[k]] = st[k]; }
         double got = m.value(z, mult); CHECK(sameValue(got, best), "proposed " << pbt::vec(z) << " (" << got << "), best is " << best); check("propose"); c.label("propose"); break; }
      }
   }
   c.labelIf(infiniteSeen, "infinite"); c.nontrivialIf(moves >= 2 && m.order() > 1 && m.nConfigs() > 3);
}
