#include "gen_model.hxx"
using namespace gen;

struct Table {
   Vec shape; std::vector<Vec> x; DVec v;
   explicit Table(const Func& f) : shape(f.shape) { forAll(shape, [&](const Vec& c) { x.push_back(c); v.push_back(f.eval(c)); }); }
   bool constant() const { for (double a : v) if (a != v[0]) return false; return true; }
   bool depends(bool (*)(const Vec&)) const;
   template<class K> bool functionOf(K key) const { typedef decltype(key(x[0])) KT; std::map<KT, double> m; for (size_t i = 0; i < x.size(); ++i) { KT k = key(x[i]); auto it = m.insert(std::make_pair(k, v[i])).first; if (it->second != v[i]) return false; } return true; }
   bool potts() const { return functionOf([](const Vec& c) { for (size_t k : c) if (k != c[0]) return 0; return 1; }); }
   bool gpotts() const { return functionOf([](const Vec& c) { return rgs(c); }); }
   static long dist(const Vec& c) { return std::labs((long)c[0] - (long)c[1]); }
   // f == w * d^pow  for some w;  f == w * min(d^pow, t) for some w, t
   bool diff(int pow, bool truncated) const {
      if (shape.size() != 2 || !functionOf([](const Vec& c) { return dist(c); })) return false;
      std::map<long, double> g; for (size_t i = 0; i < x.size(); ++i) g[dist(x[i])] = v[i];
      if (g[0] != 0) return false;
      long mx = g.rbegin()->first; if (mx == 0) return true;
      double w = g[1]; auto D = [&](long d) { return pow == 2 ? (double)d * d : (double)d; };
      for (auto& p : g) { double e = D(p.first); if (truncated) { if (w == 0) e = 0; else e = std::min(e, g[mx] / w); } if (std::fabs(p.second - w * e) > 1e-9) return false; }
      return true;
   }
};
template<class T> struct Collect { std::vector<double> v; void operator()(const T a) { v.push_back((double)a); } };
template<class T> struct CollectC { size_t dim; std::vector<std::pair<Vec, double> > v; template<class IT> void operator()(const T a, IT it) { Vec c; for (size_t i = 0; i < dim; ++i) c.push_back(it[i]); v.push_back(std::make_pair(c, (double)a)); } };
template<class V> static V sorted(V v) { std::sort(v.begin(), v.end()); return v; }
static DVec uniq(DVec v) { v = sorted(v); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }

template<class T, class F> static void enumerations(pbt::Ctx& c, const F& f, const Table& t) {
   { Collect<T> k; f.forAllValuesInOrder(k); CHECK(k.v == t.v, "forAllValuesInOrder " << pbt::vec(k.v)); }
   { Collect<T> k; f.forAllValuesInAnyOrder(k); CHECK(sorted(k.v) == sorted(t.v), "forAllValuesInAnyOrder " << pbt::vec(k.v)); }
   { Collect<T> k; f.forAtLeastAllUniqueValues(k); CHECK(uniq(k.v) == uniq(t.v), "forAtLeastAllUniqueValues " << pbt::vec(k.v)); }
   { Collect<T> k; f.forAllValuesInSwitchedOrder(k); DVec w; Vec rs(t.shape.rbegin(), t.shape.rend()); forAll(rs, [&](const Vec& x) { Vec y(x.rbegin(), x.rend()); w.push_back(t.v[idxOf(t.shape, y)]); }); CHECK(k.v == w, "forAllValuesInSwitchedOrder " << pbt::vec(k.v) << " expected " << pbt::vec(w)); }
}
template<class T, class F> static void reductions(pbt::Ctx& c, F& f, const Table& t, bool withProduct = true) {
   double mn = *std::min_element(t.v.begin(), t.v.end()), mx = *std::max_element(t.v.begin(), t.v.end()), s = 0, p = 1;
   for (double a : t.v) { s += a; p *= a; }
   CHECK_EQ((double)f.min(), mn, "min"); CHECK_EQ((double)f.max(), mx, "max"); CHECK_NEAR(f.sum(), s, 1e-9, "sum");
   if (withProduct && std::fabs(p) < 1e300) CHECK_NEAR(f.product(), p, 1e-9, "product");
}
template<class F> static void predicates(pbt::Ctx& c, F& f, const Table& t, int kind) {
   size_t dim = t.shape.size();
   if (dim >= 2) {
      bool truth = t.potts(), all = true; for (size_t s : t.shape) if (s < dim) all = false;
      if (kind == POTTSG && !all) { if (f.isPotts()) CHECK(truth, "isPotts claims too much"); }
      else CHECK_EQ((bool)f.isPotts(), truth, "isPotts");
      c.label(truth ? "potts" : "not-potts");
   }
   bool gp = f.isGeneralizedPotts();
   if (dim >= 2 && dim <= 4) { CHECK_EQ(gp, t.gpotts(), "isGeneralizedPotts"); c.label(gp ? "gpotts" : "not-gpotts"); }
   else if (gp) CHECK(t.gpotts(), "isGeneralizedPotts claims too much");
   if (dim == 1) CHECK(f.isSubmodular(), "unary functions are submodular");
   else if (dim == 2 && t.shape[0] == 2 && t.shape[1] == 2) { bool sm = t.v[0] + t.v[3] <= t.v[1] + t.v[2]; CHECK_EQ((bool)f.isSubmodular(), sm, "isSubmodular"); c.label(sm ? "submodular" : "supermodular"); }
   else { bool threw = false; try { f.isSubmodular(); } catch (const std::exception&) { threw = true; } CHECK(threw, "isSubmodular must reject unsupported shapes"); }
   CHECK_EQ((bool)f.isAbsoluteDifference(), t.diff(1, false), "isAbsoluteDifference");
   CHECK_EQ((bool)f.isSquaredDifference(), t.diff(2, false), "isSquaredDifference");
   CHECK_EQ((bool)f.isTruncatedAbsoluteDifference(), t.diff(1, true), "isTruncatedAbsoluteDifference");
   CHECK_EQ((bool)f.isTruncatedSquaredDifference(), t.diff(2, true), "isTruncatedSquaredDifference");
   c.labelIf(t.diff(1, true), "tabs"); c.labelIf(t.diff(2, true), "tsq");
}

// dense tables on or next to the border of a predicate
static Func genBorder(pbt::Ctx& c, int amp = 5, bool integral = false) {
   Func f; f.kind = EXPL; size_t form = c.upTo(5);
   size_t dim = form == 1 ? c.range(2, 5) : form == 0 ? c.range(2, 4) : 2;
   bool sq = c.flip(0.5); size_t e = c.range(1, dim > 3 ? 3 : 5);
   for (size_t d = 0; d < dim; ++d) f.shape.push_back(sq ? e : c.range(1, dim > 3 ? 3 : 5));
   if (form == 5) f.shape = Vec(2, 2);
   double w = c.sym(amp), a = c.sym(amp); size_t tr = c.range(0, 10);
   std::map<Vec, double> part;
   forAll(f.shape, [&](const Vec& x) {
      double v = 0, d = dim >= 2 ? std::fabs((double)x[0] - (double)x[1]) : 0;
      switch (form) {
      case 0: { Vec r = rgs(x); auto it = part.find(r); if (it == part.end()) it = part.insert(std::make_pair(r, (double)c.sym(2))).first; v = it->second; break; }
      case 1: { v = w; for (size_t k : x) if (k != x[0]) v = a; break; }
      case 2: v = w * std::min(d, integral ? (double)tr : (double)tr / 2); break;
      case 3: v = w * std::min(d * d, (double)tr); break;
      case 4: v = d < tr ? w * d : a; break;
      default: v = c.sym(amp);
      }
      f.p.push_back(v);
   });
   if (c.flip(0.4)) f.p[c.upTo(f.p.size() - 1)] += c.pick({1, -1, 2, -3});
   c.label("border-form:" + pbt::str(form));
   return f;
}
static Func genAny(pbt::Ctx& c, int amp, bool dyadic, size_t maxEntries) {
   if (c.flip(0.4)) return genBorder(c, 5, !dyadic);
   Opt o; o.amp = amp; o.dyadic = dyadic; Vec shape; size_t tot = 1;
   size_t dim = c.flip(0.4) ? 2 : c.upTo(5);
   for (size_t d = 0; d < dim; ++d) { size_t e = c.range(1, 5); if (e * tot > maxEntries) e = 1; tot *= e; shape.push_back(e); }
   return genFunc(c, o, shape);
}
template<class T> static void allQueries(pbt::Ctx& c, const Func& d) {
   Table t(d); c.note(d.str()); c.nontrivialIf(!t.constant()); c.label(std::string("kind:") + kindName(d.kind));
   visit<T, size_t, size_t>(d, [&](const auto& f) {
      typedef std::decay_t<decltype(f)> F;
      enumerations<T>(c, f, t);
      reductions<T>(c, f, t);
      auto mm = f.minMax(); CHECK_EQ((double)mm.min(), *std::min_element(t.v.begin(), t.v.end()), "minMax.min"); CHECK_EQ((double)mm.max(), *std::max_element(t.v.begin(), t.v.end()), "minMax.max");
      CHECK_EQ((double)f.template accumulate<opengm::Minimizer>(), (double)f.min(), "accumulate<Minimizer>");
      CHECK_EQ((double)f.template accumulate<opengm::Maximizer>(), (double)f.max(), "accumulate<Maximizer>");
      double s = 0; for (double a : t.v) s += a;
      CHECK_NEAR(f.template accumulate<opengm::Adder>(), s, 1e-9, "accumulate<Adder>");
      CHECK_NEAR(f.template accumulate<opengm::Integrator>(), s, 1e-9, "accumulate<Integrator>");
      CHECK_EQ((double)f.template accumulate<opengm::Multiplier>(), (double)f.product(), "accumulate<Multiplier>");
      predicates(c, f, t, d.kind);
      CHECK(!f.isLinearConstraint(), "not a constraint");
      CollectC<T> k; k.dim = t.shape.size(); f.forAllValuesInOrderWithCoordinate(k); CHECK_EQ(k.v.size(), t.v.size(), "coordinates");
      for (size_t i = 0; i < k.v.size(); ++i) CHECK(k.v[i].first == t.x[i] && k.v[i].second == t.v[i], "forAllValuesInOrderWithCoordinate " << i);
      CollectC<T> k2; k2.dim = t.shape.size(); f.forAllValuesInAnyOrderWithCoordinate(k2); CHECK(sorted(k2.v) == sorted(k.v), "any order with coordinate");
      CollectC<T> k3; k3.dim = t.shape.size(); f.forAtLeastAllUniqueValuesWithCoordinate(k3); DVec u; for (auto& p : k3.v) { u.push_back(p.second); CHECK_EQ(p.second, t.v[idxOf(t.shape, p.first)], "coordinate"); } CHECK(uniq(u) == uniq(t.v), "unique values");
      CHECK_EQ((double)(opengm::ValueFunctionProperties<opengm::ValueProperties::Minimum, F>::op(f)), (double)f.min(), "value property minimum");
      CHECK_EQ((double)(opengm::ValueFunctionProperties<opengm::ValueProperties::Maximum, F>::op(f)), (double)f.max(), "value property maximum");
   });
}
PROP(function_double, 40000, 600000) { allQueries<double>(c, genAny(c, 9, true, 200)); }
PROP(function_int, 25000, 400000) { Func f = genAny(c, 2, false, 12); Table t(f); double p = 1; for (double a : t.v) p *= std::max(1.0, std::fabs(a)); if (p > 2e9) throw pbt::Discard(); allQueries<int>(c, f); }

PROP(factor_queries, 20000, 300000) {
   Opt o; o.maxOrder = 4; o.maxVars = 5; o.dyadic = true; o.maxFactors = 5; o.minFactors = 1; o.binary = c.flip(0.3);
   Model m = genModel(c, o);
   if (m.n() >= 2 && c.flip(0.6)) { Func b = genBorder(c); Model m2; m2.labels = b.shape; m2.funcs.push_back(b); Factor fa; fa.f = 0; for (size_t i = 0; i < b.shape.size(); ++i) fa.vars.push_back(i); m2.factors.push_back(fa); m = m2; }
   c.note(m.str());
   SumGMs::All gm = buildAll<SumGMs::All>(m);
   for (size_t i = 0; i < m.factors.size(); ++i) {
      const Func& d = m.funcs[m.factors[i].f]; Table t(d); c.nontrivialIf(!t.constant());
      const auto& f = gm[i];
      reductions<double>(c, f, t); predicates(c, f, t, d.kind); enumerations<double>(c, f, t);
      CHECK(!f.isLinearConstraint(), "");
      DVec v(t.v.size() + 1, 777); f.copyValues(v.begin()); CHECK(v.back() == 777, "copyValues overruns"); v.pop_back(); CHECK(v == t.v, "copyValues " << pbt::vec(v));
      DVec w(t.v.size() + 1, 777), e; f.copyValuesSwitchedOrder(w.begin()); CHECK(w.back() == 777, "overrun"); w.pop_back();
      Vec rs(t.shape.rbegin(), t.shape.rend()); forAll(rs, [&](const Vec& x) { Vec y(x.rbegin(), x.rend()); e.push_back(t.v[idxOf(t.shape, y)]); }); CHECK(w == e, "copyValuesSwitchedOrder");
      double s = 0, p = 1; for (double a : t.v) { s += a; p *= a; }
      CHECK_NEAR(f.template valueProperty<opengm::ValueProperties::Sum>(), s, 1e-9, "valueProperty<Sum>");
      if (std::fabs(p) < 1e300) CHECK_NEAR(f.template valueProperty<opengm::ValueProperties::Product>(), p, 1e-9, "valueProperty<Product>");
      CHECK_EQ(f.template valueProperty<opengm::ValueProperties::Minimum>(), f.min(), "valueProperty<Minimum>");
      CHECK_EQ(f.template valueProperty<opengm::ValueProperties::Maximum>(), f.max(), "valueProperty<Maximum>");
      if (t.shape.size() >= 2) CHECK_EQ(f.template binaryProperty<opengm::BinaryProperties::IsPotts>(), t.potts(), "binaryProperty<IsPotts>");
      std::vector<size_t> sh(f.shapeBegin(), f.shapeEnd()); CHECK(sh == t.shape, "shape sequence");
      opengm::IndependentFactor<double, size_t, size_t> g(f);
      reductions<double>(c, g, t); predicates(c, g, t, EXPL);
   }
}
PROP(equality, 30000, 400000) {
   Func a = genAny(c, 3, false, 60), b = a; c.note(a.str());
   if (c.flip(0.3)) { for (double& v : a.p) v = a.p[0]; b = a; c.label("constant values"); }
   switch (c.upTo(4)) {
   case 0: break;
   case 4: { Vec q = c.perm(a.shape.size()), s; for (size_t d : q) s.push_back(a.shape[d]); b.shape = s; c.label("permuted shape"); break; }
   case 1: if (!b.p.empty()) b.p[c.upTo(b.p.size() - 1)] += 1; break;
   case 2: { if (!b.shape.empty()) { size_t d = c.upTo(b.shape.size() - 1); if (a.kind != EXPL) { if (b.kind == SPARSE) { b.keys.clear(); b.p.resize(1); } b.shape[d] += 1; } else { Opt o; o.kinds = {EXPL}; o.amp = 3; b.shape[d] += 1; b.p.resize(prodOf(b.shape), 1); } } break; }
   default: { Opt o; o.amp = 3; o.kinds = {a.kind}; Vec s = a.shape; bool pair = a.kind == POTTS || (a.kind >= ABSD && a.kind <= TSQD); if (!pair && a.kind != POTTSG) { if (c.flip()) s.push_back(2); else if (s.size() > 1) s.pop_back(); } b = genFunc(c, o, s); if (b.kind != a.kind) b = a; }
   }
   c.note("vs " + b.str());
   Table ta(a), tb(b); bool eq = a.shape == b.shape && ta.v == tb.v; c.nontrivialIf(!ta.constant()); c.label(eq ? "equal" : "different");
   visit<double, size_t, size_t>(a, [&](const auto& fa) { visit<double, size_t, size_t>(b, [&](const auto& fb) {
      if constexpr (std::is_same<decltype(fa), decltype(fb)>::value) { typedef std::decay_t<decltype(fa)> F; typedef opengm::FunctionBase<F, double, size_t, size_t> B; CHECK_EQ(static_cast<const B&>(fa) == fb, eq, "operator=="); CHECK_EQ(static_cast<const B&>(fb) == fa, eq, "operator=="); }
   }); });
}
