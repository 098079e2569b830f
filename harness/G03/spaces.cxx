#include "gen_model.hxx"
#include <opengm/graphicalmodel/space/static_simplediscretespace.hxx>
#include <opengm/graphicalmodel/space/grid_space.hxx>
#include <opengm/graphicalmodel/space/vector_view_space.hxx>
#include <opengm/graphicalmodel/space/viewspace.hxx>
#include <list>
using namespace gen;
using pbt::Ctx;

template<class S> static void same(Ctx& c, const S& s, const Vec& want, const char* what) {
   CHECK_EQ((size_t)s.numberOfVariables(), want.size(), what << ": number of variables"); for (size_t i = 0; i < want.size(); ++i) CHECK_EQ((size_t)s.numberOfLabels(i), want[i], what << ": labels of variable " << i);
   bool simple = true; for (size_t x : want) simple = simple && x == want[0]; CHECK_EQ((bool)s.isSimpleSpace(), simple, what << ": isSimpleSpace");
}
template<class S> static bool throwsOnAdd(S& s, size_t l) { try { s.addVariable(l); } catch (std::exception&) { return true; } return false; }
template<class S> static bool throwsOnDense(S& s, const Vec& l) { try { s.assignDense(l.begin(), l.end()); } catch (std::exception&) { return true; } return false; }
static Vec sizes(Ctx& c, size_t lo, size_t hi, size_t maxLab) { size_t n = c.small(lo, hi); Vec v; bool uni = c.flip(0.3); size_t u = c.range(1, maxLab); for (size_t i = 0; i < n; ++i) v.push_back(uni ? u : c.range(1, maxLab)); return v; }

template<class I, class L> static void discrete(Ctx& c) {
   typedef opengm::DiscreteSpace<I, L> S; size_t ml = std::min<size_t>(std::numeric_limits<L>::max(), 1000); Vec want; S s, other; Vec ow; size_t steps = c.range(1, 25);
   for (size_t i = 0; i < steps; ++i) {
      switch (c.upTo(7)) {
      case 0: { size_t l = c.range(1, ml); c.note(pbt::str("add ", l)); CHECK_EQ((size_t)s.addVariable(L(l)), want.size(), "index of the new variable"); want.push_back(l); break; }
      case 1: { want = sizes(c, 0, 30, ml); c.note("assign " + pbt::vec(want)); s.assign(want.begin(), want.end()); break; }
      case 2: { want = sizes(c, 0, 30, ml); c.note("assignDense " + pbt::vec(want)); std::list<size_t> l(want.begin(), want.end()); s.assignDense(l.begin(), l.end()); break; }
      case 3: { want = sizes(c, 0, 30, ml); c.note("construct " + pbt::vec(want)); std::vector<L> l(want.begin(), want.end()); s = S(l.begin(), l.end()); break; }
      case 4: c.note("copy out"); other = s; ow = want; break;
      case 5: c.note("swap in"); std::swap(s, other); std::swap(want, ow); break;
      case 6: c.note("reserve"); s.reserve(c.upTo(100)); break;
      default: { c.note("copy construct"); S t(s); same(c, t, want, "copy"); if (t.numberOfVariables() + 1 < std::numeric_limits<I>::max()) t.addVariable(1); break; } }
      same(c, s, want, "space"); same(c, other, ow, "other"); }
   c.nontrivialIf(steps > 3);
}
PROP(discrete_histories, 4000, 150000) { switch (c.upTo(2)) { case 0: discrete<size_t, size_t>(c); break; case 1: discrete<unsigned int, unsigned char>(c); break; default: discrete<unsigned short, int>(c); } }

// the uniform spaces: variables may be added only with the uniform number of labels
template<class S, class Mk> static void uniform(Ctx& c, S s, size_t n, size_t l, bool fixedL, Mk assignTo) {
   Vec want(n, l); S other = s; Vec ow = want; size_t ol = l; size_t steps = c.range(1, 25); same(c, s, want, "space");
   for (size_t i = 0; i < steps; ++i) {
      switch (c.upTo(5)) {
      case 0: c.note("add"); CHECK_EQ((size_t)s.addVariable(l), want.size(), "index of the new variable"); want.push_back(l); break;
      case 1: { size_t w = c.range(1, 200); if (w == l) ++w; c.note(pbt::str("add ", w)); CHECK(throwsOnAdd(s, w), "a variable with another number of labels is refused"); break; }
      case 2: { size_t k = c.upTo(20); if (!fixedL) l = c.range(1, 100); c.note(pbt::str("assign ", k, " x ", l)); assignTo(s, k, l); want.assign(k, l); break; }
      case 3: { size_t k = c.upTo(20); if (!fixedL && k) l = c.range(1, 100); c.note(pbt::str("assignDense ", k, " x ", l)); want.assign(k, l); s.assignDense(want.begin(), want.end()); break; }
      case 4: { Vec bad(c.range(2, 9), l); bad[c.range(fixedL ? 0 : 1, bad.size() - 1)] = l + 1; c.note("assignDense " + pbt::vec(bad)); S t = s; CHECK(throwsOnDense(t, bad), "non-uniform label numbers are refused"); break; }
      default: c.note("swap with copy"); std::swap(s, other); std::swap(want, ow); std::swap(l, ol); }
      same(c, s, want, "space"); same(c, other, ow, "other"); }
   c.nontrivialIf(steps > 3);
}
template<class I, class L> static void simple(Ctx& c) { size_t n = c.upTo(30), l = c.range(1, 100); c.note(pbt::str("simple ", n, " x ", l)); typedef opengm::SimpleDiscreteSpace<I, L> S; S e; CHECK_EQ((size_t)e.numberOfVariables(), (size_t)0, "default space is empty"); uniform(c, S(n, l), n, l, false, [](S& s, size_t k, size_t l) { s.assign(k, l); }); }
template<size_t N, class I, class L> static void stat(Ctx& c) { size_t n = c.upTo(30); c.note(pbt::str("static ", n, " x ", N)); typedef opengm::StaticSimpleDiscreteSpace<N, I, L> S; S e; CHECK_EQ((size_t)e.numberOfVariables(), (size_t)0, "default space is empty"); uniform(c, S(n), n, N, true, [](S& s, size_t k, size_t) { s.assign(k); }); }
PROP(uniform_histories, 4000, 150000) { switch (c.upTo(5)) { case 0: simple<size_t, size_t>(c); break; case 1: simple<unsigned int, unsigned char>(c); break; case 2: stat<1, size_t, size_t>(c); break; case 3: stat<2, unsigned short, unsigned char>(c); break; case 4: stat<7, unsigned int, int>(c); break; default: stat<200, size_t, unsigned char>(c); } }

template<class I, class L> static void grid(Ctx& c) {
   typedef opengm::GridSpace<I, L> S; S s, other; size_t x = 0, y = 0, l = 0, ox = 0, oy = 0, ol = 0; size_t steps = c.range(1, 10); CHECK_EQ((size_t)s.numberOfVariables(), (size_t)0, "default space is empty");
   for (size_t i = 0; i < steps; ++i) {
      switch (c.upTo(3)) {
      case 0: x = c.upTo(12); y = c.upTo(12); l = c.range(1, 200); c.note(pbt::str("construct ", x, " ", y, " ", l)); s = S(x, y, l); break;
      case 1: x = c.upTo(12); y = c.upTo(12); l = c.range(1, 200); c.note(pbt::str("assign ", x, " ", y, " ", l)); s.assign(x, y, l); break;
      case 2: std::swap(s, other); std::swap(x, ox); std::swap(y, oy); std::swap(l, ol); break;
      default: c.note("add"); CHECK(throwsOnAdd(s, l), "a grid cannot grow"); }
      CHECK_EQ((size_t)s.dimX(), x, "dimX"); CHECK_EQ((size_t)s.dimY(), y, "dimY"); CHECK_EQ((size_t)s.numberOfLabels(), l, "labels of the grid"); same(c, s, Vec(x * y, l), "grid"); same(c, other, Vec(ox * oy, ol), "other");
      if (x && y) CHECK_EQ((size_t)s.numberOfLabels(I(c.upTo(x - 1)), I(c.upTo(y - 1))), l, "labels at a position"); }
   c.nontrivialIf(steps > 2 && x * y > 1);
}
PROP(grid_histories, 3000, 80000) { if (c.flip()) grid<size_t, size_t>(c); else grid<unsigned short, unsigned char>(c); }

template<class I, class L> static void vectorView(Ctx& c) {
   typedef opengm::VectorViewSpace<I, L> S; std::vector<L> a, b; for (size_t x : sizes(c, 1, 20, 200)) a.push_back(x); for (size_t x : sizes(c, 1, 20, 200)) b.push_back(x); S s(a), t(b); bool swapped = false; size_t steps = c.range(1, 15); c.note(pbt::vec(a) + pbt::vec(b));
   for (size_t i = 0; i < steps; ++i) { switch (c.upTo(3)) { case 0: a[c.upTo(a.size() - 1)] = c.range(1, 200); break; case 1: b.push_back(c.range(1, 200)); break; case 2: std::swap(s, t); swapped = !swapped; break; default: CHECK(throwsOnAdd(s, 3), "a view cannot grow"); }
      same(c, s, Vec((swapped ? b : a).begin(), (swapped ? b : a).end()), "vector view"); same(c, t, Vec((swapped ? a : b).begin(), (swapped ? a : b).end()), "vector view"); }
   c.nontrivialIf(steps > 3);
}
PROP(vector_views, 2000, 50000) { if (c.flip()) vectorView<size_t, size_t>(c); else vectorView<unsigned short, unsigned char>(c); }
template<class T, class SP> struct Gm { typedef opengm::GraphicalModel<double, opengm::Adder, typename opengm::meta::TypeListGenerator<opengm::ExplicitFunction<double, typename SP::IndexType, typename SP::LabelType> >::type, SP> type; };
template<class SP> static typename Gm<double, SP>::type model(const SP& s) { return typename Gm<double, SP>::type(s); }
template<class I, class L> static void view(Ctx& c) {
   typedef opengm::DiscreteSpace<I, L> DS; typedef typename Gm<double, DS>::type GM; Vec a = sizes(c, 0, 12, 200), b = sizes(c, 0, 12, 200); GM ga(DS(a.begin(), a.end())), gb(DS(b.begin(), b.end())); opengm::ViewSpace<GM> s(ga), t; t.assign(gb); c.note(pbt::vec(a) + pbt::vec(b)); size_t steps = c.range(1, 10);
   for (size_t i = 0; i < steps; ++i) { switch (c.upTo(2)) { case 0: { size_t l = c.range(1, 200); ga.addVariable(l); a.push_back(l); break; } case 1: s.assign(gb); same(c, s, b, "reassigned view"); s.assign(ga); break; default: CHECK(throwsOnAdd(s, 3), "a view cannot grow"); } same(c, s, a, "view"); same(c, t, b, "view"); }
   c.nontrivialIf(steps > 3);
}
PROP(model_views, 2000, 50000) { if (c.flip()) view<size_t, size_t>(c); else view<unsigned int, unsigned char>(c); }

// models over every kind of space evaluate alike
template<class SP> static void evalOn(Ctx& c, const SP& s, const Model& m) {
   typedef typename Gm<double, SP>::type GM; typedef typename SP::IndexType I; typedef typename SP::LabelType L; GM gm(s); CHECK_EQ((size_t)gm.numberOfVariables(), m.n(), "variables of the model");
   for (auto& f : m.factors) { std::vector<I> v(f.vars.begin(), f.vars.end()); auto id = gm.addFunction(makeExplicit<double, I, L>(m.funcs[f.f])); gm.addFactor(id, v.begin(), v.end()); }
   for (size_t i = 0; i < m.n(); ++i) CHECK_EQ((size_t)gm.numberOfLabels(i), m.labels[i], "labels in the model"); GM copy = gm; size_t budget = 60;
   forAll(m.labels, [&](const Vec& x) { if (!budget) return; --budget; std::vector<L> l(x.begin(), x.end()); CHECK_EQ(gm.evaluate(l.begin()), m.sum(x), "value"); CHECK_EQ(copy.evaluate(l.begin()), m.sum(x), "value of the copy"); });
}
PROP(models_over_spaces, 3000, 80000) {
   Opt o; o.minVars = 1; o.maxVars = 6; o.uniformLabels = true; o.maxLabels = 3; o.minLabels = 1; o.kinds = {EXPL}; o.maxConfigs = 1000; bool st = c.flip(0.3); if (st) o.minLabels = 3; Model m; for (int k = 0; k < 30; ++k) { m = genModel(c, o); if (!st || m.labels[0] == 3) break; } bool uni = true; for (size_t l : m.labels) uni = uni && l == m.labels[0]; if (!uni || (st && m.labels[0] != 3)) throw pbt::Discard{}; c.note(m.str()); size_t n = m.n(), l = m.labels[0]; c.nontrivialIf(n > 1 && m.factors.size() > 1);
   evalOn(c, opengm::DiscreteSpace<>(m.labels.begin(), m.labels.end()), m); evalOn(c, opengm::SimpleDiscreteSpace<>(n, l), m); evalOn(c, opengm::SimpleDiscreteSpace<unsigned short, unsigned char>(n, l), m); evalOn(c, opengm::VectorViewSpace<>(m.labels), m); if (l == 3) evalOn(c, opengm::StaticSimpleDiscreteSpace<3>(n), m);
   for (size_t x = 1; x <= n; ++x) if (n % x == 0) evalOn(c, opengm::GridSpace<>(x, n / x, l), m);
   auto base = model(opengm::DiscreteSpace<>(m.labels.begin(), m.labels.end())); evalOn(c, opengm::ViewSpace<decltype(base)>(base), m);
}
