#include "gen_model.hxx"
#include <opengm/functions/constraint_functions/label_order_function.hxx>
#include <opengm/functions/constraint_functions/num_labels_limitation_function.hxx>
#include <opengm/functions/constraint_functions/linear_constraint_function.hxx>
#include <opengm/functions/soft_constraint_functions/label_cost_function.hxx>
#include <opengm/functions/soft_constraint_functions/sum_constraint_function.hxx>
#include <random>
using namespace gen;
typedef opengm::IndicatorVariable<size_t, size_t> IV;
struct Ind { int op; std::vector<std::pair<size_t, size_t> > p; // 0 and, 1 or, 2 not
   bool eval(const Vec& x) const { size_t hit = 0; for (auto& q : p) hit += x[q.first] == q.second; return op == 0 ? hit == p.size() : op == 1 ? hit > 0 : hit == 0; }
   std::string str() const { std::ostringstream s; s << "aon"[op] << "("; for (auto& q : p) s << q.first << "=" << q.second << " "; s << ")"; return s.str(); } };
struct Lin { std::vector<Ind> v; DVec co; double bound; int op; // 0 <=, 1 ==, 2 >=
   double viol(double lhs) const { double w = lhs - bound; return op == 0 ? std::max(0.0, w) : op == 1 ? std::fabs(w) : std::max(0.0, -w); }
   double at(const Vec& x) const { double s = 0; for (size_t i = 0; i < v.size(); ++i) if (v[i].eval(x)) s += co[i]; return viol(s); } };
static Ind genInd(pbt::Ctx& c, const Vec& shape, size_t maxPairs) {
   Ind r; r.op = c.upTo(2); size_t n = c.small(1, maxPairs);
   for (size_t i = 0; i < n; ++i) { size_t v = c.upTo(shape.size() - 1); r.p.push_back({v, c.upTo(shape[v] - 1)}); }
   return r; }
static IV mkIV(pbt::Ctx& c, const Ind& d) {
   IV::LogicalOperatorType op = d.op == 0 ? IV::And : d.op == 1 ? IV::Or : IV::Not; size_t way = c.upTo(4);
   if (way == 0 || (way == 1 && d.p.size() != 1)) return IV(d.p, op);
   if (way == 1) return IV(d.p[0].first, d.p[0].second, op);
   if (way == 2) return IV(d.p.begin(), d.p.end(), op);
   IV r; if (way == 3) { r.setLogicalOperatorType(op); for (auto& q : d.p) r.add(q.first, q.second); } else { size_t k = c.upTo(d.p.size()); r.add(d.p.begin(), d.p.begin() + k); r.add(std::vector<std::pair<size_t, size_t> >(d.p.begin() + k, d.p.end())); r.setLogicalOperatorType(op); r.reserve(20); }
   return r; }
static Vec genShape(pbt::Ctx& c, size_t maxDim, size_t maxL) { Vec s; size_t d = c.range(1, maxDim); bool same = c.flip(0.4); size_t l = c.range(1, maxL); for (size_t i = 0; i < d; ++i) s.push_back(same ? l : c.range(1, maxL)); return s; }

// what the function reports must be the listed constraints whose violation at y exceeds the tolerance, with that violation as weight
template<class F, class Y> static void listCheck(pbt::Ctx& c, const F& f, const std::vector<double>& viol, double tol, bool relaxed, Y y, const char* what, bool hardOnly = false) {
   typedef typename F::ViolatedLinearConstraintsIteratorType VI; typedef typename F::ViolatedLinearConstraintsWeightsIteratorType WI; VI b, e; WI w;
   if (relaxed) f.challengeRelaxed(b, e, w, y, tol); else f.challenge(b, e, w, y, tol);
   std::vector<double> left(viol); size_t n = 0; std::vector<bool> seen(viol.size(), false);
   for (; b != e; ++b, ++w, ++n) {
      // identify the listed constraint by its address within the function's list
      size_t k = 0; auto it = f.linearConstraintsBegin(); for (; it != f.linearConstraintsEnd(); ++it, ++k) if (&*it == &*b) break;
      CHECK(k < viol.size(), what << ": reported constraint is one of the listed constraints"); CHECK(!seen[k], what << ": constraint " << k << " reported twice"); seen[k] = true;
      CHECK(viol[k] > tol, what << ": constraint " << k << " reported although its violation " << viol[k] << " is within the tolerance " << tol);
      CHECK_NEAR((double)*w, viol[k], 1e-9, what << ": weight of constraint " << k); }
   for (size_t k = 0; k < viol.size(); ++k) CHECK(seen[k] || viol[k] <= tol, what << ": constraint " << k << " not reported although violated by " << viol[k] << " > " << tol);
}
// the listed constraints, evaluated independently from the descriptions the function exposes
template<class F> struct Listed {
   std::vector<Lin> cons; std::vector<std::vector<size_t> > idx; std::vector<Ind> order;
   static Ind dec(const IV& v) { Ind r; r.op = v.getLogicalOperatorType() == IV::And ? 0 : v.getLogicalOperatorType() == IV::Or ? 1 : 2; r.p.assign(v.begin(), v.end()); return r; }
   Listed(pbt::Ctx& c, const F& f) {
      std::vector<IV> ord(f.indicatorVariablesOrderBegin(), f.indicatorVariablesOrderEnd()); for (auto& v : ord) order.push_back(dec(v));
      for (size_t i = 0; i < ord.size(); ++i) for (size_t j = 0; j < i; ++j) CHECK(order[i].op != order[j].op || order[i].p != order[j].p || order[i].p.empty(), "an indicator variable is listed twice");
      for (auto it = f.linearConstraintsBegin(); it != f.linearConstraintsEnd(); ++it) {
         Lin l; l.bound = it->getBound(); typedef typename F::LinearConstraintType::LinearConstraintOperatorType O; l.op = it->getConstraintOperator() == O::LessEqual ? 0 : it->getConstraintOperator() == O::Equal ? 1 : 2;
         l.co.assign(it->coefficientsBegin(), it->coefficientsEnd()); std::vector<size_t> ix;
         for (auto v = it->indicatorVariablesBegin(); v != it->indicatorVariablesEnd(); ++v) { Ind d = dec(*v); l.v.push_back(d); size_t k = 0; while (k < order.size() && !(order[k].op == d.op && order[k].p == d.p)) ++k; CHECK(k < order.size(), "indicator variable of a constraint missing from the list"); ix.push_back(k); }
         CHECK_EQ(l.co.size(), l.v.size(), "as many coefficients as indicator variables"); cons.push_back(l); idx.push_back(ix); } }
   DVec at(const Vec& x) const { DVec r; for (auto& l : cons) r.push_back(l.at(x)); return r; }
   DVec atRelaxed(const DVec& y) const { DVec r; for (size_t k = 0; k < cons.size(); ++k) { double s = 0; for (size_t i = 0; i < idx[k].size(); ++i) s += cons[k].co[i] * y[idx[k][i]]; r.push_back(cons[k].viol(s)); } return r; }
};
template<class F, class OKF> static void hard(pbt::Ctx& c, const F& f, const Vec& shape, OKF ok, double valid, double invalid, const char* what, std::vector<Lin>* ref = 0) {
   CHECK_EQ((size_t)f.dimension(), shape.size(), what << ": dimension"); CHECK_EQ((size_t)f.size(), prodOf(shape), what << ": size"); for (size_t d = 0; d < shape.size(); ++d) CHECK_EQ((size_t)f.shape(d), shape[d], what << ": shape");
   CHECK_EQ((double)f.min(), std::min(valid, invalid), what << ": min"); CHECK_EQ((double)f.max(), std::max(valid, invalid), what << ": max"); CHECK_EQ((double)f.minMax().min(), std::min(valid, invalid), what << ": minMax"); CHECK_EQ((double)f.minMax().max(), std::max(valid, invalid), what << ": minMax"); CHECK(f.isLinearConstraint(), what << ": is a linear constraint");
   Listed<F> L(c, f); bool anyOk = false, anyBad = false;
   if (ref) { CHECK_EQ(L.cons.size(), ref->size(), what << ": number of constraints"); }
   double tol = c.pick(DVec({0, 0, 0.25, 1, 0.5}));
   forAll(shape, [&](const Vec& x) {
      bool good = ok(x); (good ? anyOk : anyBad) = true;
      CHECK_EQ((double)f(x.begin()), good ? valid : invalid, what << " at " << pbt::vec(x));
      DVec v = ref ? DVec() : L.at(x); if (ref) for (auto& l : *ref) v.push_back(l.at(x));
      { DVec w = L.at(x); for (size_t k = 0; k < v.size(); ++k) CHECK_NEAR(w[k], v[k], 1e-9, what << ": listed constraint " << k << " at " << pbt::vec(x)); size_t k = 0; for (auto it = f.linearConstraintsBegin(); it != f.linearConstraintsEnd(); ++it, ++k) CHECK_NEAR((double)(*it)(x.begin()), v[k], 1e-9, what << ": violation weight of constraint " << k); }
      bool listedOk = true; for (double z : v) listedOk = listedOk && z <= 0; CHECK_EQ(listedOk, good, what << ": the listed constraints hold exactly on the satisfying labelings, " << pbt::vec(x));
      listCheck(c, f, v, tol, false, x.begin(), what); listCheck(c, f, v, 0, false, x.begin(), what);
      // the integral point seen by the relaxation: a feasible labeling is never cut off
      DVec y; for (auto& o : L.order) y.push_back(o.eval(x) ? 1 : 0);
      listCheck(c, f, v, tol, true, y.begin(), what);
   });
   for (int rep = 0; rep < 6; ++rep) { DVec y; for (size_t i = 0; i < L.order.size(); ++i) y.push_back(c.upTo(8) / 8.0); listCheck(c, f, L.atRelaxed(y), rep % 2 ? tol : 0, true, y.begin(), what); }
   c.nontrivialIf(anyOk && anyBad); c.labelIf(anyOk && anyBad, "both");
}
template<class T> static void returns(pbt::Ctx& c, T& v, T& i) { v = (T)c.sym(8) / 2; do i = (T)c.sym(8) / 2; while (i == v); if (c.flip(0.1)) i = std::numeric_limits<T>::infinity(); }
template<class T> static void labelOrder(pbt::Ctx& c) {
   typedef opengm::LabelOrderFunction<T, size_t, size_t> F; size_t a = c.range(1, 5), b = c.range(1, 5); std::vector<T> ord; for (size_t i = 0; i < std::max(a, b) + c.upTo(1); ++i) ord.push_back((T)c.sym(5) / 2); T v, i; returns(c, v, i);
   c.note(pbt::str("order ", pbt::vec(ord), " labels ", a, " ", b, " valid ", v, " invalid ", i));
   F f(a, b, ord, v, i), g(a, b, ord.begin(), v, i), h; h = f;
   auto ok = [&](const Vec& x) { return ord[x[0]] <= ord[x[1]]; };
   hard(c, f, Vec({a, b}), ok, v, i, "label order"); hard(c, g, Vec({a, b}), ok, v, i, "label order (iterator)"); hard(c, h, Vec({a, b}), ok, v, i, "label order (assigned)");
}
PROP(label_order, 4000, 150000) { if (c.flip(0.3)) labelOrder<float>(c); else labelOrder<double>(c); }
template<class T> static void numLabels(pbt::Ctx& c) {
   typedef opengm::NumLabelsLimitationFunction<T, size_t, size_t> F; Vec shape = genShape(c, 4, 4); size_t lim = c.pick({1, 2, 1, 2, 3, 4, 0}); T v, i; returns(c, v, i);
   c.note(pbt::str("shape ", pbt::vec(shape), " limit ", lim, " valid ", v, " invalid ", i));
   auto ok = [&](const Vec& x) { return std::set<size_t>(x.begin(), x.end()).size() <= lim; };
   F f(shape.begin(), shape.end(), lim, v, i); hard(c, f, shape, ok, v, i, "number of labels");
   if (std::set<size_t>(shape.begin(), shape.end()).size() == 1) { c.label("equal shape"); F g(shape.size(), shape[0], lim, v, i); hard(c, g, shape, ok, v, i, "number of labels (equal)"); }
}
PROP(num_labels_limit, 4000, 150000) { if (c.flip(0.3)) numLabels<float>(c); else numLabels<double>(c); }
template<class T> static void linear(pbt::Ctx& c) {
   typedef opengm::LinearConstraintFunction<T, size_t, size_t> F; typedef typename F::LinearConstraintType LC; Vec shape = genShape(c, 4, 3); T v, i; returns(c, v, i);
   bool many = c.flip(0.15); size_t n = many ? c.range(2, 6) : c.range(1, 3); std::vector<Lin> ref; std::vector<LC> cons; std::vector<Ind> pool;
   for (size_t k = 0; k < n; ++k) {
      Lin l; l.op = c.pick({0, 2, 0, 2, 1}); size_t m = many ? c.range(4, 12) : c.range(1, 4); LC lc; size_t way = c.upTo(2); std::vector<IV> ivs; std::vector<T> cos;
      for (size_t q = 0; q < m; ++q) { Ind d = !pool.empty() && c.flip(0.3) ? c.pick(pool) : genInd(c, shape, 3); pool.push_back(d); double co = c.sym(6) / 2.0; l.v.push_back(d); l.co.push_back(co); ivs.push_back(mkIV(c, d)); cos.push_back(co); if (way == 0) lc.add(ivs.back(), cos.back()); }
      l.bound = 0; l.bound = c.sym(6) / 2.0; if (c.flip(0.7)) { Vec x; for (size_t s : shape) x.push_back(c.upTo(s - 1)); double t = 0; for (size_t q = 0; q < m; ++q) if (l.v[q].eval(x)) t += l.co[q]; l.bound = t; }
      typename LC::LinearConstraintOperatorValueType op = l.op == 0 ? LC::LinearConstraintOperatorType::LessEqual : l.op == 1 ? LC::LinearConstraintOperatorType::Equal : LC::LinearConstraintOperatorType::GreaterEqual;
      if (way == 1) { lc.reserve(m); lc.add(ivs.begin(), ivs.end(), cos.begin()); } if (way == 2) lc = LC(ivs, cos, l.bound, op); else { lc.setBound(l.bound); lc.setConstraintOperator(op); }
      ref.push_back(l); cons.push_back(lc); std::ostringstream s; for (size_t q = 0; q < m; ++q) s << l.co[q] << "*" << l.v[q].str() << " "; s << (l.op == 0 ? "<=" : l.op == 1 ? "==" : ">=") << l.bound; c.note(s.str()); }
   c.note(pbt::str("shape ", pbt::vec(shape), " valid ", v, " invalid ", i)); c.labelIf(pool.size() > 16, ">16 indicators");
   auto ok = [&](const Vec& x) { for (auto& l : ref) if (l.at(x) > 0) return false; return true; };
   F f(shape.begin(), shape.end(), cons, v, i); hard(c, f, shape, ok, v, i, "linear constraints", &ref);
   F g(shape.begin(), shape.end(), cons.begin(), cons.end(), v, i), h; h = g; hard(c, h, shape, ok, v, i, "linear constraints (iterators)", &ref);
}
PROP(linear_constraints, 5000, 200000) { if (c.flip(0.3)) linear<float>(c); else linear<double>(c); }

template<class F, class E> static void soft(pbt::Ctx& c, const F& f, const Vec& shape, E cost, const char* what) {
   CHECK_EQ((size_t)f.dimension(), shape.size(), what << ": dimension"); CHECK_EQ((size_t)f.size(), prodOf(shape), what << ": size"); for (size_t d = 0; d < shape.size(); ++d) CHECK_EQ((size_t)f.shape(d), shape[d], what << ": shape");
   double mn = 1e300, mx = -1e300; forAll(shape, [&](const Vec& x) { double e = cost(x); mn = std::min(mn, e); mx = std::max(mx, e); CHECK_NEAR((double)f(x.begin()), e, 1e-5, what << " at " << pbt::vec(x)); });
   CHECK_NEAR((double)f.min(), mn, 1e-5, what << ": min"); CHECK_NEAR((double)f.max(), mx, 1e-5, what << ": max");
   c.nontrivialIf(shape.size() > 1 && prodOf(shape) > 1);
}
template<class T> static void labelCost(pbt::Ctx& c) {
   typedef opengm::LabelCostFunction<T, size_t, size_t> F; Vec shape = genShape(c, 5, 4); size_t mx = *std::max_element(shape.begin(), shape.end()); std::vector<T> costs; for (size_t i = 0; i < mx + c.upTo(1); ++i) costs.push_back((T)c.sym(8) / 2); size_t l = c.upTo(mx - 1); T one = (T)c.sym(8) / 2;
   c.note(pbt::str("shape ", pbt::vec(shape), " costs ", pbt::vec(costs), " single ", l, " ", one));
   auto all = [&](const Vec& x) { std::set<size_t> s(x.begin(), x.end()); double r = 0; for (size_t q : s) r += costs[q]; return r; }; auto single = [&](const Vec& x) { return std::count(x.begin(), x.end(), l) ? (double)one : 0.0; };
   F a(shape.begin(), shape.end(), costs.begin(), costs.end()), b(shape.begin(), shape.end(), l, one); soft(c, a, shape, all, "label costs"); soft(c, b, shape, single, "single label cost");
   if (std::set<size_t>(shape.begin(), shape.end()).size() == 1) { F d(shape.size(), mx, costs.begin(), costs.end()), e(shape.size(), mx, l, one); soft(c, d, shape, all, "label costs (equal)"); soft(c, e, shape, single, "single label cost (equal)"); c.label("equal shape"); }
}
PROP(label_cost, 4000, 150000) { if (c.flip(0.3)) labelCost<float>(c); else labelCost<double>(c); }
template<class T> static void sumC(pbt::Ctx& c) {
   typedef opengm::SumConstraintFunction<T, size_t, size_t> F; Vec shape = genShape(c, 4, 4); size_t mx = *std::max_element(shape.begin(), shape.end()); bool share = c.flip(); size_t tot = 0; for (size_t s : shape) tot += s; std::vector<T> co; for (size_t i = 0; i < (share ? mx : tot); ++i) co.push_back((T)c.sym(8) / 2); T la = (T)c.sym(6) / 2, bo = (T)c.sym(8) / 2;
   c.note(pbt::str("shape ", pbt::vec(shape), " coefficients ", pbt::vec(co), share ? " shared" : "", " lambda ", la, " bound ", bo));
   auto ex = [&](const Vec& x) { double s = 0; size_t off = 0; for (size_t i = 0; i < shape.size(); ++i) { s += co[(share ? 0 : off) + x[i]]; off += shape[i]; } return (double)la * std::fabs(s - bo); };
   F a(shape.begin(), shape.end(), co.begin(), co.end(), share, la, bo); soft(c, a, shape, ex, "sum constraint");
   if (std::set<size_t>(shape.begin(), shape.end()).size() == 1) { F d(shape.size(), mx, co.begin(), co.end(), share, la, bo), e; e = d; soft(c, e, shape, ex, "sum constraint (equal)"); c.label("equal shape"); }
}
PROP(sum_constraint, 4000, 150000) { if (c.flip(0.3)) sumC<float>(c); else sumC<double>(c); }

// indicator variables: boolean value, equality and a total order that containers can rely on
PROP(indicator_order, 6000, 300000) {
   Vec shape = genShape(c, 3, 3); std::vector<Ind> d; std::vector<IV> v; for (int i = 0; i < 3; ++i) { d.push_back(i && c.flip(0.2) ? c.pick(d) : genInd(c, shape, 3)); std::shuffle(d.back().p.begin(), d.back().p.end(), std::minstd_rand(c.upTo(99))); v.push_back(mkIV(c, d.back())); c.note(d.back().str()); }
   for (int i = 0; i < 3; ++i) forAll(shape, [&](const Vec& x) { CHECK_EQ(v[i](x.begin()), d[i].eval(x), "value of " << d[i].str() << " at " << pbt::vec(x)); });
   auto norm = [&](Ind q) { std::sort(q.p.begin(), q.p.end()); return q; };
   auto sgn = [&](int i, int j) { return v[i] < v[j] ? -1 : v[j] < v[i] ? 1 : 0; };
   for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { bool eq = norm(d[i]).op == norm(d[j]).op && norm(d[i]).p == norm(d[j]).p;
      if (i != j && d[i].op == d[j].op && d[i].p.size() == d[j].p.size()) c.nontrivial();
      CHECK_EQ(v[i] == v[j], eq, "equality of " << d[i].str() << " and " << d[j].str()); CHECK_EQ(v[i] != v[j], !eq, "inequality"); CHECK(!(v[i] < v[j] && v[j] < v[i]), "both less than each other: " << d[i].str() << " " << d[j].str());
      CHECK_EQ(sgn(i, j) == 0, eq, "neither is less than the other, but they differ: " << d[i].str() << " " << d[j].str());
      CHECK_EQ(v[i] > v[j], v[j] < v[i], "> is the reverse of < for " << d[i].str() << " " << d[j].str()); CHECK_EQ(v[i] <= v[j], v[i] < v[j] || eq, "<= is < or == for " << d[i].str() << " " << d[j].str()); CHECK_EQ(v[i] >= v[j], v[j] < v[i] || eq, ">= is > or =="); }
   for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) if (v[i] < v[j] && v[j] < v[k]) CHECK(v[i] < v[k], "transitivity");
}
