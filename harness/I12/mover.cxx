// One fusion move: the mixture of two labelings.
#include "solve.hxx"
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/astar.hxx>
#include <opengm/inference/icm.hxx>
#include <opengm/inference/auxiliary/fusion_move/fusion_mover.hxx>
using namespace gen;
using pbt::Ctx;
// a solver that gives up
template<class GM, class ACC> struct GivesUp : opengm::Inference<GM, ACC> {
   typedef GM GraphicalModelType; typedef ACC AccumulationType; OPENGM_GM_TYPE_TYPEDEFS; struct Parameter {}; const GM& gm_; GivesUp(const GM& gm, const Parameter&) : gm_(gm) {}
   std::string name() const { return "GivesUp"; } const GM& graphicalModel() const { return gm_; } opengm::InferenceTermination infer() { return opengm::UNKNOWN; } opengm::InferenceTermination arg(std::vector<LabelType>& x, const size_t = 1) const { x.assign(gm_.numberOfVariables(), 7); return opengm::UNKNOWN; }
   void setStartingPoint(typename std::vector<LabelType>::const_iterator) {}
};
static Vec labeling(Ctx& c, const Model& m) { Vec x; for (size_t l : m.labels) x.push_back(c.upTo(l - 1)); return x; }
static double bestMixture(const Model& m, const Vec& a, const Vec& b, bool mult, bool mx) { Vec free; for (size_t v = 0; v < m.n(); ++v) if (a[v] != b[v]) free.push_back(v); double best = mx ? -HUGE_VAL : HUGE_VAL; for (size_t s = 0; s < (size_t(1) << free.size()); ++s) { Vec x = a; for (size_t i = 0; i < free.size(); ++i) if (s >> i & 1) x[free[i]] = b[free[i]]; double v = m.value(x, mult); if (mx ? v > best : v < best) best = v; } return best; }
template<class G, class ACC> static void fuse(Ctx& c, bool mult, bool mx) {
   typedef typename G::All GM; typedef opengm::FusionMover<GM, ACC> F; typedef typename F::SubGmType Sub; typedef std::vector<typename GM::LabelType> L; Opt o; o.maxVars = 9; o.maxLabels = 4; o.maxOrder = 4; o.maxFactors = 14; o.positive = mult; if (c.flip(0.2)) o.amp = 1;
   Model m = genModel(c, o); c.note(m.str()); auto gm = buildAll<GM>(m); F mover(gm); size_t rounds = c.range(1, 4); Vec x = labeling(c, m); bool differs = false;
   opengm::HlFusionMover<GM, ACC> high(gm, typename opengm::HlFusionMover<GM, ACC>::Parameter(opengm::HlFusionMover<GM, ACC>::DefaulFusion, c.range(1, 9)));
   for (size_t r = 0; r < rounds; ++r) {
      Vec a = c.flip() ? x : labeling(c, m), b = labeling(c, m); if (c.flip(0.3)) for (size_t v = 0; v < m.n(); ++v) if (c.flip()) b[v] = a[v]; size_t diff = 0; for (size_t v = 0; v < m.n(); ++v) diff += a[v] != b[v]; L la(a.begin(), a.end()), lb(b.begin(), b.end()), out(m.n(), 99), la0 = la, lb0 = lb;
      double va = gm.evaluate(la), vb = gm.evaluate(lb), best = mx ? std::max(va, vb) : std::min(va, vb); int how = c.upTo(6); static const char* names[] = {"exhaustive", "flipper", "A*", "gives up", "ICM", "high level", "exhaustive, warm"}; c.note(pbt::str(names[how], " ", pbt::vec(a), " and ", pbt::vec(b))); double v;
      if (how == 5) { double res = -77; bool any = high.fuse(la, lb, out, va, vb, res); CHECK_EQ(any, diff > 0, "fuse() returns whether there is anything to fuse"); if (!any) { CHECK(out == la, "result of equal labelings"); continue; } v = res; }
      else { mover.setup(la, lb, out, va, vb); CHECK_EQ(size_t(mover.numberOfFusionMoveVariable()), diff, "number of variables to fuse"); CHECK(mover.valueA() == va && mover.valueB() == vb, "values of the two labelings"); if (!diff) { CHECK(out == la, "result of equal labelings"); continue; }
         if (how == 0) v = mover.template fuse<opengm::Bruteforce<Sub, ACC> >(typename opengm::Bruteforce<Sub, ACC>::Parameter());
         else if (how == 1) v = mover.template fuse<opengm::LazyFlipper<Sub, ACC> >(typename opengm::LazyFlipper<Sub, ACC>::Parameter((size_t)c.range(1, 9)), c.flip());
         else if (how == 2) v = mover.template fuse<opengm::AStar<Sub, ACC> >(typename opengm::AStar<Sub, ACC>::Parameter());
         else if (how == 3) v = mover.template fuse<GivesUp<Sub, ACC> >(typename GivesUp<Sub, ACC>::Parameter(), c.flip());
         else if (how == 4) v = mover.template fuse<opengm::ICM<Sub, ACC> >(typename opengm::ICM<Sub, ACC>::Parameter(), c.flip());
         else v = mover.template fuse<opengm::Bruteforce<Sub, ACC> >(typename opengm::Bruteforce<Sub, ACC>::Parameter(), false);
         CHECK(mover.valueResult() == v, "valueResult()"); }
      CHECK(la == la0 && lb == lb0, "the fused labelings changed"); CHECK_EQ(out.size(), m.n(), "size of the result"); x.assign(out.begin(), out.end()); double t = 1e-9 * (1 + std::fabs(v));
      for (size_t i = 0; i < m.n(); ++i) CHECK(x[i] == a[i] || x[i] == b[i], "variable " << i << " has label " << x[i] << " of neither labeling"); CHECK_NEAR(v, m.value(x, mult), t, names[how] << ": value of the mixture " << pbt::vec(x)); CHECK(notWorse(v, best, mx, 0), names[how] << ": value " << v << " is worse than " << best);
      double opt = bestMixture(m, a, b, mult, mx); CHECK(notWorse(opt, v, mx, t), "a mixture better than the best one"); if (how == 0 || how == 2 || how == 6) CHECK_NEAR(v, opt, t, names[how] << ": best mixture"); c.labelIf(notWorse(opt, best, mx, -1e-6) , "mixture improves"); c.label(names[how]); differs = differs || diff > 1;
   }
   c.nontrivialIf(differs && m.order() > 1);
}
PROP(mover, 3000, 100000) { bool mult = c.flip(0.3), mx = c.flip(0.4); if (mult) { if (mx) fuse<MulGMs, opengm::Maximizer>(c, mult, mx); else fuse<MulGMs, opengm::Minimizer>(c, mult, mx); } else { if (mx) fuse<SumGMs, opengm::Maximizer>(c, mult, mx); else fuse<SumGMs, opengm::Minimizer>(c, mult, mx); } }
// the binary functions of a fusion move
PROP(views, 2000, 60000) {
   typedef SumGMs::All GM; Opt o; o.maxVars = 6; o.maxOrder = 4; o.minFactors = 1; o.order0 = false; Model m = genModel(c, o); if (m.factors.empty()) throw pbt::Discard{}; c.note(m.str()); auto gm = buildAll<GM>(m); Vec a = labeling(c, m), b = labeling(c, m); if (c.flip()) for (size_t v = 0; v < m.n(); ++v) if (c.flip(0.3)) b[v] = a[v]; c.note(pbt::vec(a) + " " + pbt::vec(b)); std::vector<GM::LabelType> la(a.begin(), a.end()), lb(b.begin(), b.end());
   size_t k = c.upTo(m.factors.size() - 1); const Vec& vars = m.factors[k].vars; Vec open; for (size_t i = 0; i < vars.size(); ++i) if (a[vars[i]] != b[vars[i]]) open.push_back(i); opengm::FuseViewFunction<GM> f(gm[k], la, lb); opengm::FuseViewFixFunction<GM> g(gm[k], la, lb);
   CHECK_EQ(size_t(f.dimension()), vars.size(), "dimension"); CHECK_EQ(size_t(g.dimension()), open.size(), "dimension with equal labels fixed"); CHECK_EQ(size_t(f.size()), size_t(1) << vars.size(), "size"); CHECK_EQ(size_t(g.size()), size_t(1) << open.size(), "size with equal labels fixed");
   for (size_t i = 0; i < vars.size(); ++i) CHECK_EQ(size_t(f.shape(i)), size_t(2), "shape"); for (size_t i = 0; i < open.size(); ++i) CHECK_EQ(size_t(g.shape(i)), size_t(2), "shape with equal labels fixed");
   auto coords = [&](size_t d, size_t s) { std::vector<size_t> x(d); for (size_t i = 0; i < d; ++i) x[i] = s >> i & 1; return x; };
   for (size_t s = 0; s < size_t(1) << vars.size(); ++s) { auto x = coords(vars.size(), s); Vec full = a; for (size_t i = 0; i < vars.size(); ++i) if (x[i]) full[vars[i]] = b[vars[i]]; CHECK(f(x.begin()) == m.factorValue(k, full), "value at " << pbt::vec(Vec(x.begin(), x.end()))); }
   for (size_t s = 0; s < size_t(1) << open.size(); ++s) { auto x = coords(open.size(), s); Vec full = a; for (size_t i = 0; i < open.size(); ++i) if (x[i]) full[vars[open[i]]] = b[vars[open[i]]]; CHECK(g(x.begin()) == m.factorValue(k, full), "value with equal labels fixed at " << pbt::vec(Vec(x.begin(), x.end()))); }
   c.nontrivialIf(vars.size() > 1 && open.size() && open.size() < vars.size());
}
