// harness of M01: models of 1 to 20 function types: every question a factor answers is put to its own function
#include "tabs.hxx"
#include "pbt.hxx"
#include <set>
#include <algorithm>
using pbt::Ctx;
typedef std::vector<size_t> Vec;

struct Entry { size_t type; Vec vars; std::vector<double> v; unsigned bits; };
static bool diagonal(const Vec& shape, size_t k) { size_t f = 0; for (size_t i = 0; i < shape.size(); ++i) { size_t l = k % shape[i]; k /= shape[i]; if (i == 0) f = l; else if (l != f) return false; } return true; }
struct Collect { std::vector<double> v; void operator()(double x) { v.push_back(x); } };
struct ShapeOf { size_t dim, size; std::vector<size_t> shape; double first; ShapeOf() : dim(99), size(0), first(0) {} template<class F> void operator()(const F& f) { dim = f.dimension(); size = f.size(); for (size_t i = 0; i < dim; ++i) shape.push_back(f.shape(i)); Vec z(dim + 1, 0); first = f(z.begin()); } };
struct ViOf { std::vector<size_t> vars; double first; template<class IT, class F> void operator()(IT b, IT e, const F& f) { vars.assign(b, e); Vec z(vars.size() + 1, 0); first = f(z.begin()); } };

template<class GM> struct Adder_ { GM& gm; const Vec& shape; const Entry& e; typename GM::FunctionIdentifier id; template<int N> void run() { id = gm.addFunction(tabs::Tab<N>(shape, e.v, e.bits, 0)); } };
template<class GM> struct Getter_ { const GM& gm; size_t f; std::vector<double> v; template<int N> void run() { v = gm[f].template function<N>().v_; } };

template<int K>
void model(Ctx& c) {
   typedef typename tabs::GM<K>::type GM;
   const size_t n = c.range(1, 5), nf = c.range(1, 2 + K);
   Vec labels(n); for (auto& l : labels) l = c.range(1, 3);
   GM gm(opengm::DiscreteSpace<size_t, size_t>(labels.begin(), labels.end()));
   std::vector<Entry> es; std::set<size_t> types; std::ostringstream os; os << "types " << K << " labels " << pbt::vec(labels) << " factors";
   for (size_t f = 0; f < nf; ++f) {
      Entry e; e.type = c.flip(0.3) ? K - 1 - c.upTo(std::min(3, K - 1)) : c.upTo(K - 1); e.vars = c.subset(n, c.upTo(std::min<size_t>(3, n))); e.bits = c.range(0, 255);
      Vec shape; size_t sz = 1; for (size_t v : e.vars) { shape.push_back(labels[v]); sz *= labels[v]; }
      if (c.flip(0.3)) { double a = double(c.range(-8, 8)) / 4, b = double(c.range(-8, 8)) / 4; for (size_t k = 0; k < sz; ++k) e.v.push_back(diagonal(shape, k) ? a : b); }
      else for (size_t k = 0; k < sz; ++k) e.v.push_back(double(c.range(-40, 40)) / 4);
      Adder_<GM> a = {gm, shape, e, typename GM::FunctionIdentifier()}; tabs::At<K>::call(e.type, a);
      CHECK_EQ((size_t)a.id.functionType, e.type, "type of the identifier");
      CHECK_EQ(gm.addFactor(a.id, e.vars.begin(), e.vars.end()), f, "factor index");
      es.push_back(e); types.insert(e.type); os << " " << e.type << pbt::vec(e.vars) << "=" << pbt::vec(e.v) << "/" << e.bits;
   }
   c.note(os.str()); c.nontrivialIf(types.size() > 1 || K == 1); c.labelIf(*types.rbegin() > 15, "type beyond 15"); c.label(pbt::str("types ", K));
   GM copy(gm), assigned; assigned = gm;
   const GM* ms[] = {&gm, &copy, &assigned};
   const GM& m = *ms[c.upTo(2)];
   Vec x(n, 0);
   do {
      double total = 0;
      for (size_t f = 0; f < nf; ++f) {
         Vec y; for (size_t v : es[f].vars) y.push_back(x[v]);
         size_t k = 0, mul = 1; for (size_t i = 0; i < y.size(); ++i) { k += mul * y[i]; mul *= labels[es[f].vars[i]]; }
         y.push_back(0);
         CHECK_EQ(m[f](y.begin()), es[f].v[k], "factor " << f << " at " << pbt::vec(y));
         total += es[f].v[k];
      }
      CHECK_EQ(m.evaluate(x.begin()), total, "model at " << pbt::vec(x));
      size_t i = 0; for (; i < n; ++i) { if (++x[i] < labels[i]) break; x[i] = 0; }
      if (i == n) break;
   } while (true);
   for (size_t f = 0; f < nf; ++f) {
      const Entry& e = es[f]; const typename GM::FactorType& F = m[f];
      CHECK_EQ((size_t)F.functionType(), e.type, "type of factor " << f);
      CHECK_EQ((size_t)F.size(), e.v.size(), "size of factor " << f); CHECK_EQ((size_t)F.numberOfVariables(), e.vars.size(), "order of factor " << f);
      for (size_t i = 0; i < e.vars.size(); ++i) { CHECK_EQ((size_t)F.shape(i), labels[e.vars[i]], "shape of factor " << f); CHECK_EQ((size_t)F.numberOfLabels(i), labels[e.vars[i]], "labels of factor " << f); }
      CHECK(Vec(F.shapeBegin(), F.shapeEnd()) == [&] { Vec s; for (size_t v : e.vars) s.push_back(labels[v]); return s; }(), "shape iterator of factor " << f);
      // (the differences are functions of two variables)
      CHECK_EQ(F.isPotts(), bool(e.bits & 1), "isPotts of factor " << f << " of type " << e.type);
      CHECK_EQ(F.isGeneralizedPotts(), bool(e.bits & 2), "isGeneralizedPotts of factor " << f);
      CHECK_EQ(F.isSubmodular(), bool(e.bits & 4), "isSubmodular of factor " << f);
      CHECK_EQ(F.isSquaredDifference(), e.vars.size() == 2 && (e.bits & 8), "isSquaredDifference of factor " << f);
      CHECK_EQ(F.isTruncatedSquaredDifference(), e.vars.size() == 2 && (e.bits & 16), "isTruncatedSquaredDifference of factor " << f);
      CHECK_EQ(F.isAbsoluteDifference(), e.vars.size() == 2 && (e.bits & 32), "isAbsoluteDifference of factor " << f);
      CHECK_EQ(F.isTruncatedAbsoluteDifference(), e.vars.size() == 2 && (e.bits & 64), "isTruncatedAbsoluteDifference of factor " << f);
      CHECK_EQ(F.isLinearConstraint(), bool(e.bits & 128), "isLinearConstraint of factor " << f);
      double mn = e.v[0], mx = e.v[0], sum = 0, prod = 1; for (double v : e.v) { mn = std::min(mn, v); mx = std::max(mx, v); sum += v; prod *= v; }
      CHECK_EQ(F.min(), mn, "min of factor " << f); CHECK_EQ(F.max(), mx, "max of factor " << f); CHECK_EQ(F.sum(), sum, "sum of factor " << f);
      CHECK_NEAR(F.product(), prod, 1e-9 * (1 + std::fabs(prod)), "product of factor " << f);
      CHECK_EQ(F.template valueProperty<opengm::ValueProperties::Sum>(), sum, "sum property of factor " << f);
      CHECK_EQ(F.template valueProperty<opengm::ValueProperties::Minimum>(), mn, "minimum property of factor " << f);
      CHECK_EQ(F.template valueProperty<opengm::ValueProperties::Maximum>(), mx, "maximum property of factor " << f);
      CHECK_NEAR(F.template valueProperty<opengm::ValueProperties::Product>(), prod, 1e-9 * (1 + std::fabs(prod)), "product property of factor " << f);
      if (e.vars.size() > 1) {
         Vec s; for (size_t v : e.vars) s.push_back(labels[v]);
         bool potts = true; std::vector<double> val[2]; for (size_t k = 0; k < e.v.size(); ++k) { std::vector<double>& w = val[diagonal(s, k)]; if (w.size() && w[0] != e.v[k]) potts = false; w.push_back(e.v[k]); }
         CHECK_EQ(F.template binaryProperty<opengm::BinaryProperties::IsPotts>(), potts, "Potts property of factor " << f); c.labelIf(potts && e.v.size() > 2, "Potts table");
      }
      std::vector<double> a(e.v.size()), b(e.v.size());
      F.copyValues(a.begin()); CHECK(a == e.v, "copyValues of factor " << f << ": " << pbt::vec(a));
      // last variable fastest
      std::vector<double> sw; { Vec s; for (size_t v : e.vars) s.push_back(labels[v]); Vec y(s.size(), 0); for (size_t k = 0; k < e.v.size(); ++k) { size_t id = 0, mul = 1; for (size_t i = 0; i < s.size(); ++i) { id += mul * y[i]; mul *= s[i]; } sw.push_back(e.v[id]); for (size_t i = s.size(); i-- > 0;) { if (++y[i] < s[i]) break; y[i] = 0; } } }
      F.copyValuesSwitchedOrder(b.begin()); CHECK(b == sw, "copyValuesSwitchedOrder of factor " << f << ": " << pbt::vec(b));
      Collect c1, c2, c3, c4; F.forAllValuesInOrder(c1); F.forAllValuesInSwitchedOrder(c2); F.forAllValuesInAnyOrder(c3); F.forAtLeastAllUniqueValues(c4);
      CHECK(c1.v == e.v, "forAllValuesInOrder of factor " << f); CHECK(c2.v == sw, "forAllValuesInSwitchedOrder of factor " << f);
      std::vector<double> s1 = e.v, s3 = c3.v; std::sort(s1.begin(), s1.end()); std::sort(s3.begin(), s3.end()); CHECK(s1 == s3, "forAllValuesInAnyOrder of factor " << f);
      CHECK(std::set<double>(c4.v.begin(), c4.v.end()) == std::set<double>(e.v.begin(), e.v.end()), "forAtLeastAllUniqueValues of factor " << f);
      ShapeOf so; F.callFunctor(so); CHECK(so.dim == e.vars.size() && so.size == e.v.size() && so.first == e.v[0], "callFunctor of factor " << f);
      ViOf vi; F.callViFunctor(vi); CHECK(vi.vars == e.vars && vi.first == e.v[0], "callViFunctor of factor " << f);
      Getter_<GM> g = {m, f, {}}; tabs::At<K>::call(e.type, g); CHECK(g.v == e.v, "function() of factor " << f);
      if (e.vars.size()) { typename GM::IndependentFactorType ind(F); for (size_t k = 0; k < e.v.size(); ++k) { CHECK_EQ(ind.function()(k), e.v[k], "independent factor of " << f); } }
   }
}
