// C03: SyntheticModelGenerator2: grid, fully connected and star models
#include "pbt.hxx"
#include <opengm/opengm.hxx>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/constant.hxx>
#include <opengm/functions/potts.hxx>
#include <opengm/functions/absolute_difference.hxx>
#include <opengm/functions/truncated_absolute_difference.hxx>
#include <opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx>
#include <map>
#include <set>
using pbt::Ctx;
typedef std::vector<size_t> V;

template<class GM>
struct Fix {
   typedef typename GM::ValueType T;
   typedef opengm::SyntheticModelGenerator2<GM> G;
   typedef typename G::Parameter Par;
   Par p; size_t states, id; std::string text; double lo[2], hi[2];

   Fix(Ctx& c) {
      states = c.range(1, 4); id = c.range(0, 100000);
      p.randomNumberOfStates_ = c.flip();
      const int ut[] = {G::EMPTY, G::CONSTF, G::URANDOM, G::IRANDOM};
      const int pt[] = {G::CONSTF, G::URANDOM, G::IRANDOM, G::GPOTTS, G::RGPOTTS, G::L1, G::RPOTTS};
      std::ostringstream os; os << "states " << (p.randomNumberOfStates_ ? "<=" : "") << states << " id " << id;
      for (int k = 0; k < 2; ++k) {
         const int t = k ? pt[c.range(0, 6)] : ut[c.range(0, 3)];
         p.functionTypes_[k] = typename G::FunctionTypes(t);
         p.sharedFunctions_[k] = c.flip();
         std::vector<T>& q = p.functionParameters_[k]; q.clear();
         if (t == G::URANDOM || t == G::IRANDOM || t == G::RGPOTTS) { int a = (int)c.range(-8, 8), b = a + (int)c.range(0, 8); if (t == G::IRANDOM) { q.push_back(T(a)); q.push_back(T(b)); } else { q.push_back(T(a) / 2); q.push_back(T(b) / 2); } }
         else if (t != G::EMPTY) q.push_back(T(c.range(t == G::RPOTTS ? 0 : -8, 8)) / 2);
         os << "; type " << t << (p.sharedFunctions_[k] ? " shared " : " ") << pbt::vec(q);
         c.label(pbt::str(k ? "pair" : "unary", t));
      }
      text = os.str();
   }
   // the values of one factor; returns the description of the first fault
   std::string values(const GM& gm, size_t f, int k) const {
      const int t = p.functionTypes_[k];
      const std::vector<T>& q = p.functionParameters_[k];
      std::vector<T> val(gm[f].size()); gm[f].copyValues(val.begin());
      const size_t s0 = gm[f].numberOfLabels(0), s1 = gm[f].numberOfVariables() > 1 ? gm[f].numberOfLabels(1) : 1;
      const double e = 1e-5;
      double pot = 1e300;
      for (size_t b = 0; b < s1; ++b) for (size_t a = 0; a < s0; ++a) {
         const double x = val[a + s0 * b];
         const std::string at = pbt::str("factor ", f, " value (", a, ",", b, ") = ", x);
         if (t == G::CONSTF && x != q[0]) return at + " of a constant";
         if ((t == G::URANDOM) && !(x >= q[0] - e && x <= q[1] + e)) return at + " outside the range";
         if (t == G::IRANDOM && !(x >= q[0] && x <= q[1] && x == std::floor(x))) return at + " is no integer of the range";
         if (t == G::IRANDOM && q[1] > q[0] && !(x < q[1])) return at + " is the excluded end of the range";
         if (t == G::L1 && std::fabs(x - double(q[0]) * std::fabs(double(a) - double(b))) > e) return at + " is not the weighted difference";
         if (t == G::GPOTTS && x != (a == b ? 0 : double(q[0]))) return at + " of a Potts function";
         if (t == G::RGPOTTS || t == G::RPOTTS) {
            if (a == b) { if (x != 0) return at + " on the diagonal of a Potts function"; }
            else {
               if (pot == 1e300) pot = x;
               if (pot != x) return at + " differs from another off-diagonal value";
               if (t == G::RGPOTTS && !(x >= q[0] - e && x <= q[1] + e)) return at + " outside the range";
               if (t == G::RPOTTS && !(std::fabs(x) <= double(q[0]) + e)) return at + " outside [-p,p]";
            }
         }
      }
      return "";
   }
   std::string check(const GM& gm, size_t n, std::set<V> want) const {
      if (gm.numberOfVariables() != n) return pbt::str(gm.numberOfVariables(), " variables instead of ", n);
      for (size_t v = 0; v < n; ++v) {
         const size_t k = gm.numberOfLabels(v);
         if (p.randomNumberOfStates_ ? !(k >= 1 && k <= states) : k != states) return pbt::str("variable ", v, " has ", k, " labels");
      }
      std::set<size_t> unary; std::set<V> got; std::set<std::pair<size_t, size_t> > ids[2]; size_t cnt[2] = {0, 0};
      for (size_t f = 0; f < gm.numberOfFactors(); ++f) {
         const size_t o = gm[f].numberOfVariables();
         if (o != 1 && o != 2) return pbt::str("factor ", f, " of order ", o);
         V vs; for (size_t k = 0; k < o; ++k) vs.push_back(gm[f].variableIndex(k));
         for (size_t k = 0; k < o; ++k) if (gm[f].numberOfLabels(k) != gm.numberOfLabels(vs[k])) return "shape";
         if (o == 1 ? !unary.insert(vs[0]).second : !got.insert(vs).second) return pbt::str("two factors on ", pbt::vec(vs));
         ids[o - 1].insert(std::make_pair(size_t(gm[f].functionType()), size_t(gm[f].functionIndex()))); ++cnt[o - 1];
         const std::string s = values(gm, f, int(o) - 1);
         if (!s.empty()) return s;
      }
      if (cnt[0] != (p.functionTypes_[0] == G::EMPTY ? 0 : n)) return pbt::str(cnt[0], " unary factors");
      if (got != want) return pbt::str("pairwise factors are not those of the requested structure: ", got.size(), " of ", want.size());
      for (int k = 0; k < 2; ++k) if (cnt[k]) {
         const bool shared = p.sharedFunctions_[k] && !p.randomNumberOfStates_;
         if (ids[k].size() != (shared ? 1 : cnt[k])) return pbt::str(cnt[k], " factors of order ", k + 1, " have ", ids[k].size(), " functions, shared: ", shared);
      }
      return "";
   }
};
template<class GM> std::string same(const GM& a, const GM& b) {
   if (a.numberOfVariables() != b.numberOfVariables() || a.numberOfFactors() != b.numberOfFactors()) return "sizes";
   for (size_t v = 0; v < a.numberOfVariables(); ++v) if (a.numberOfLabels(v) != b.numberOfLabels(v)) return "labels";
   for (size_t f = 0; f < a.numberOfFactors(); ++f) {
      if (a[f].numberOfVariables() != b[f].numberOfVariables()) return "order";
      for (size_t i = 0; i < a[f].numberOfVariables(); ++i) if (a[f].variableIndex(i) != b[f].variableIndex(i)) return "variables";
      std::vector<typename GM::ValueType> x(a[f].size()), y(b[f].size());
      a[f].copyValues(x.begin()); b[f].copyValues(y.begin());
      if (x != y) return "values";
   }
   return "";
}
template<class T> struct Model { typedef opengm::GraphicalModel<T, opengm::Adder, opengm::ExplicitFunction<T, size_t, size_t>, opengm::DiscreteSpace<size_t, size_t> > type; };

static std::set<V> gridEdges(size_t h, size_t w) {
   std::set<V> s;
   for (size_t i = 0; i < h; ++i) for (size_t j = 0; j < w; ++j) {
      const size_t v = i + h * j;
      if (i + 1 < h) s.insert(V{v, v + 1});
      if (j + 1 < w) s.insert(V{v, v + h});
   }
   return s;
}
template<class T> void grid2(Ctx& c) {
   typedef typename Model<T>::type GM;
   Fix<GM> x(c);
   const size_t h = c.range(1, 5), w = c.range(1, 5);
   c.note(pbt::str("grid height ", h, " width ", w, " ", x.text)); c.nontrivialIf(h * w > 1);
   typename Fix<GM>::G g;
   GM gm = g.buildGrid(x.id, h, w, x.states, x.p);
   const std::string s = x.check(gm, h * w, gridEdges(h, w)); CHECK(s.empty(), s);
   rand();
   GM b = g.buildGrid(x.id, h, w, x.states, x.p); CHECK(same(gm, b).empty(), "the same id gives another model: " + same(gm, b));
}
template<class T> void full2(Ctx& c) {
   typedef typename Model<T>::type GM;
   Fix<GM> x(c);
   const size_t n = c.range(1, 7);
   c.note(pbt::str("full ", n, " ", x.text)); c.nontrivialIf(n > 1);
   std::set<V> want; for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) want.insert(V{i, j});
   typename Fix<GM>::G g;
   GM gm = g.buildFull(x.id, n, x.states, x.p);
   const std::string s = x.check(gm, n, want); CHECK(s.empty(), s);
   rand();
   GM b = g.buildFull(x.id, n, x.states, x.p); CHECK(same(gm, b).empty(), "the same id gives another model: " + same(gm, b));
}
template<class T> void star2(Ctx& c) {
   typedef typename Model<T>::type GM;
   Fix<GM> x(c);
   const size_t n = c.range(1, 9);
   c.note(pbt::str("star ", n, " ", x.text)); c.nontrivialIf(n > 1);
   typename Fix<GM>::G g;
   GM gm = g.buildStar(x.id, n, x.states, x.p);
   // any variable may be the root
   std::string s = "no root"; 
   for (size_t r = 0; r < n && !s.empty(); ++r) {
      std::set<V> want; for (size_t i = 0; i < n; ++i) if (i != r) want.insert(V{std::min(i, r), std::max(i, r)});
      const std::string q = x.check(gm, n, want);
      if (q.empty() || s == "no root" || q.find("structure") == std::string::npos) s = q;
   }
   CHECK(s.empty(), s);
   rand();
   GM b = g.buildStar(x.id, n, x.states, x.p); CHECK(same(gm, b).empty(), "the same id gives another model: " + same(gm, b));
}
PROP(grid2_double, 2000, 50000) { grid2<double>(c); }
PROP(grid2_float, 800, 20000) { grid2<float>(c); }
PROP(full2_double, 2000, 50000) { full2<double>(c); }
PROP(full2_float, 800, 20000) { full2<float>(c); }
PROP(star2_double, 2000, 50000) { star2<double>(c); }
PROP(star2_float, 800, 20000) { star2<float>(c); }

PROP(unknown_unary_type, 300, 3000) {
   typedef Model<double>::type GM; typedef opengm::SyntheticModelGenerator2<GM> G;
   G::Parameter p; G g;
   const int bad[] = {G::GPOTTS, G::RGPOTTS, G::L1, G::RPOTTS};
   const int t = bad[c.range(0, 3)]; const size_t n = c.range(1, 4), k = c.range(1, 3), shape = c.range(0, 2);
   p.functionTypes_[0] = G::FunctionTypes(t); p.functionParameters_[0].assign(t == G::RGPOTTS ? 2 : 1, 1.0);
   c.note(pbt::str("unary type ", t, " n ", n, " builder ", shape)); c.nontrivial();
   bool threw = false;
   try { if (shape == 0) g.buildGrid(1, n, 1, k, p); else if (shape == 1) g.buildFull(1, n, k, p); else g.buildStar(1, n, k, p); } catch (const opengm::RuntimeError&) { threw = true; }
   CHECK(threw, "a pairwise family was accepted for the unary factors");
}
// different ids differ: 40 models of two variables with continuous tables
PROP(ids_matter, 300, 3000) {
   typedef Model<double>::type GM; typedef opengm::SyntheticModelGenerator2<GM> G;
   G::Parameter p; G g; const size_t id = c.range(0, 100000), k = c.range(2, 4), n = c.range(2, 5);
   p.sharedFunctions_[0] = p.sharedFunctions_[1] = c.flip();
   c.note(pbt::str("id ", id, " states ", k, " n ", n)); c.nontrivial();
   GM a = g.buildFull(id, n, k, p), b = g.buildFull(id + 1, n, k, p);
   CHECK(!same(a, b).empty(), "ids id and id+1 give the same model");
   std::vector<double> v(a[0].size()); a[0].copyValues(v.begin());
   std::vector<double> u(a[a.numberOfFactors() - 1].size()); a[a.numberOfFactors() - 1].copyValues(u.begin());
   CHECK(std::set<double>(u.begin(), u.end()).size() > 1, "a random table holds more than one value");
}
// the higher-order grid: factors of the requested order
PROP(higher_order_grid, 600, 6000) {
   typedef Model<double>::type GM;
   Fix<GM> x(c);
   const size_t order = c.range(2, 4), h = order + c.range(0, 2), w = order + c.range(0, 2);
   c.note(pbt::str("higher-order grid height ", h, " width ", w, " order ", order, " ", x.text)); c.nontrivial();
   Fix<GM>::G g;
   GM gm = g.buildHigherOrderGrid(x.id, h, w, x.states, order, x.p);
   CHECK(gm.numberOfVariables() == h * w, "number of variables");
   for (size_t v = 0; v < h * w; ++v) { const size_t k = gm.numberOfLabels(v); CHECK(x.p.randomNumberOfStates_ ? (k >= 1 && k <= x.states) : k == x.states, "labels"); }
   size_t mxo = 0;
   for (size_t f = 0; f < gm.numberOfFactors(); ++f) {
      mxo = std::max<size_t>(mxo, gm[f].numberOfVariables());
      if (gm[f].numberOfVariables() <= 2) { const std::string s = x.values(gm, f, int(gm[f].numberOfVariables()) - 1); CHECK(s.empty(), s); }
   }
   GM b = g.buildHigherOrderGrid(x.id, h, w, x.states, order, x.p); CHECK(same(gm, b).empty(), "the same id gives another model");
   // the runs of `order` variables in the rows and columns, and nothing else (unaries aside)
   std::set<V> want, got;
   for (size_t i = 0; i < h; ++i) for (size_t j = 0; j < w; ++j) {
      V vs;
      if (i + order <= h) { for (size_t k = 0; k < order; ++k) vs.push_back(i + k + h * j); want.insert(vs); }
      vs.clear();
      if (j + order <= w) { for (size_t k = 0; k < order; ++k) vs.push_back(i + h * (j + k)); want.insert(vs); }
   }
   for (size_t f = 0; f < gm.numberOfFactors(); ++f) { V vs; for (size_t k = 0; k < gm[f].numberOfVariables(); ++k) vs.push_back(gm[f].variableIndex(k)); if (vs.size() > 1) got.insert(vs); }
   const std::set<V> e = gridEdges(h, w);
   if (mxo <= 2) for (auto& vs : got) CHECK(e.count(vs), "a pairwise factor that is no edge of the grid: " + pbt::vec(vs));
   CHECK_KNOWN("higher-order-grid", got == want, pbt::str("a grid of order ", order, " has factors of order ", mxo, " at most, ", got.size(), " of ", want.size()));
}
