#include "gen_model.hxx"
#include <opengm/functions/fieldofexperts.hxx>
#include <opengm/functions/learnable/lpotts.hxx>
#include <opengm/functions/learnable/lunary.hxx>
#include <opengm/functions/learnable/lweightedsum_of_functions.hxx>
#include <opengm/functions/constraint_functions/label_order_function.hxx>
#include <opengm/functions/constraint_functions/num_labels_limitation_function.hxx>
#include <opengm/functions/constraint_functions/linear_constraint_function.hxx>
#include <opengm/functions/soft_constraint_functions/label_cost_function.hxx>
#include <opengm/functions/soft_constraint_functions/sum_constraint_function.hxx>
using namespace gen;
typedef unsigned long long IX;
template<class F, class T> struct Seq { std::vector<IX> ix; std::vector<T> va; };
static const IX GI = 0xdeadbeefcafeull;
template<class F, class T> static Seq<F, T> ser(pbt::Ctx& c, const F& f) {
   typedef opengm::FunctionSerialization<F> S; size_t ni = S::indexSequenceSize(f), nv = S::valueSequenceSize(f); const T GV = (T)-77777; std::vector<IX> ix(ni + 8, GI); std::vector<T> va(nv + 8, GV);
   S::serialize(f, ix.begin() + 4, va.begin() + 4);
   for (int k = 0; k < 4; ++k) { CHECK(ix[k] == GI && ix[4 + ni + k] == GI, "serialisation wrote outside of the announced " << ni << " indices"); CHECK(va[k] == GV && va[4 + nv + k] == GV, "serialisation wrote outside of the announced " << nv << " values"); }
   for (size_t k = 0; k < ni; ++k) CHECK(ix[4 + k] != GI, "index " << k << " of the announced " << ni << " was not written"); for (size_t k = 0; k < nv; ++k) CHECK(va[4 + k] != GV, "value " << k << " of the announced " << nv << " was not written");
   Seq<F, T> r; r.ix.assign(ix.begin() + 4, ix.begin() + 4 + ni); r.va.assign(va.begin() + 4, va.begin() + 4 + nv); return r;
}
struct NoBind { template<class F> void operator()(F&) const {} };
template<class F, class T, class B> static void roundTrip(pbt::Ctx& c, const F& f, F used, B bind) {
   c.nontrivialIf(f.dimension() > 1 || f.size() > 2);
   Seq<F, T> s = ser<F, T>(c, f); F fresh; F* dst[] = { &fresh, &used };
   for (int k = 0; k < 2; ++k) {
      std::vector<IX> ix(s.ix); std::vector<T> va(s.va);   // exact-size copies: reading past the end is visible to the sanitiser
      opengm::FunctionSerialization<F>::deserialize(ix.begin(), va.begin(), *dst[k]); bind(*dst[k]); const F& g = *dst[k]; const char* w = k ? " (into a used object)" : "";
      CHECK_EQ((size_t)g.dimension(), (size_t)f.dimension(), "dimension" << w); CHECK_EQ((size_t)g.size(), (size_t)f.size(), "size" << w); Vec shape; for (size_t d = 0; d < f.dimension(); ++d) { shape.push_back(f.shape(d)); CHECK_EQ((size_t)g.shape(d), shape[d], "shape" << w); }
      forAll(shape, [&](const Vec& x0) { Vec x(x0); if (x.empty()) x.push_back(0); CHECK_EQ((T)g(x.begin()), (T)f(x.begin()), "value at " << pbt::vec(x0) << w); });
      Seq<F, T> t = ser<F, T>(c, g); CHECK(t.ix == s.ix, "indices after a second serialisation" << w << ": " << pbt::vec(t.ix) << " instead of " << pbt::vec(s.ix)); CHECK(t.va == s.va, "values after a second serialisation" << w);
   }
}
template<class T> static T fin(pbt::Ctx& c) { return std::is_signed<T>::value ? (T)c.sym(20) / (std::is_integral<T>::value ? 1 : 4) : (T)c.upTo(20); }
template<class T> static T val(pbt::Ctx& c) { if (std::numeric_limits<T>::has_infinity && c.flip(0.05)) return std::numeric_limits<T>::infinity(); return std::is_signed<T>::value ? (T)c.sym(20) / (std::is_integral<T>::value ? 1 : 4) : (T)c.upTo(20); }
static Vec rshape(pbt::Ctx& c, size_t lo, size_t hi, size_t l) { Vec s; size_t d = c.range(lo, hi); bool same = c.flip(0.3); size_t q = c.range(1, l); for (size_t i = 0; i < d; ++i) s.push_back(same ? q : c.range(1, l)); return s; }
template<class T> static void standard(pbt::Ctx& c) {
   typedef Types<T, size_t, size_t> Y; size_t k = c.upTo(9); c.label(pbt::str("type ", k)); size_t a = c.range(1, 5), b = c.range(1, 5), a2 = c.range(1, 5);
   switch (k) {
   case 0: { auto mk = [&]() { Vec s = rshape(c, 0, 4, 4); typename Y::Explicit f; if (s.empty()) f = typename Y::Explicit(val<T>(c)); else { f = typename Y::Explicit(s.begin(), s.end()); forAll(s, [&](const Vec& x) { f(x.begin()) = val<T>(c); }); } return f; }; auto f = mk(); roundTrip<typename Y::Explicit, T>(c, f, mk(), NoBind()); break; }
   case 1: { Vec s = rshape(c, 0, 4, 4), s2 = rshape(c, 0, 4, 4); typename Y::Constant f(s.begin(), s.end(), val<T>(c)); roundTrip<typename Y::Constant, T>(c, f, typename Y::Constant(s2.begin(), s2.end(), val<T>(c)), NoBind()); break; }
   case 2: { typename Y::Potts f(a, b, val<T>(c), val<T>(c)); roundTrip<typename Y::Potts, T>(c, f, typename Y::Potts(a2, 3, 1, 2), NoBind()); break; }
   case 3: { Vec s = rshape(c, 1, 4, 4), s2 = rshape(c, 1, 4, 4); typename Y::PottsN f(s.begin(), s.end(), val<T>(c), val<T>(c)); roundTrip<typename Y::PottsN, T>(c, f, typename Y::PottsN(s2.begin(), s2.end(), 1, 2), NoBind()); break; }
   case 4: { auto mk = [&]() { Vec s = rshape(c, 1, c.flip(0.2) ? 6 : 4, 3); typename Y::PottsG f(s.begin(), s.end()); forAll(s, [&](const Vec& x) { f.setByLabel(x.begin(), val<T>(c)); }); return f; }; auto f = mk(); roundTrip<typename Y::PottsG, T>(c, f, mk(), NoBind()); break; }
   case 5: { typename Y::AbsD f(a, b, fin<T>(c)); roundTrip<typename Y::AbsD, T>(c, f, typename Y::AbsD(a2, 3, 1), NoBind()); break; }
   case 6: { typename Y::SqD f(a, b, fin<T>(c)); roundTrip<typename Y::SqD, T>(c, f, typename Y::SqD(a2, 3, 1), NoBind()); break; }
   case 7: { typename Y::TAbsD f(a, b, (T)c.upTo(5), fin<T>(c)); roundTrip<typename Y::TAbsD, T>(c, f, typename Y::TAbsD(a2, 3, 1, 1), NoBind()); break; }
   case 8: { typename Y::TSqD f(a, b, (T)c.upTo(5), fin<T>(c)); roundTrip<typename Y::TSqD, T>(c, f, typename Y::TSqD(a2, 3, 1, 1), NoBind()); break; }
   default: { auto mk = [&]() { Vec s = rshape(c, 1, 4, 4); typename Y::Sparse f(s.begin(), s.end(), val<T>(c)); forAll(s, [&](const Vec& x) { if (c.flip(0.3)) f.insert(x.begin(), val<T>(c)); }); return f; }; auto f = mk(); roundTrip<typename Y::Sparse, T>(c, f, mk(), NoBind()); } }
}
PROP(standard_double, 6000, 200000) { standard<double>(c); }
PROP(standard_float, 2000, 100000) { standard<float>(c); }
PROP(standard_int, 2000, 100000) { standard<int>(c); }
PROP(field_of_experts, 1500, 50000) { typedef opengm::FoEFunction<double, size_t, size_t> F; auto mk = [&]() { size_t n = c.range(1, 3), e = c.range(1, 3), l = c.range(1, 4); DVec ex, al; for (size_t i = 0; i < n * e; ++i) ex.push_back(c.sym(8) / 4.0); for (size_t i = 0; i < e; ++i) al.push_back(c.sym(8) / 4.0); return F(ex, al, l); }; F f = mk(); roundTrip<F, double>(c, f, mk(), NoBind()); }
typedef opengm::learning::Weights<double> W;
struct Bind { const W* w; template<class F> void operator()(F& f) const { f.setWeights(*w); } };
PROP(learnable, 4000, 150000) {
   size_t nw = c.range(1, 5); W w(nw); for (size_t i = 0; i < nw; ++i) w.setWeight(i, c.sym(8) / 4.0); Bind bd; bd.w = &w;
   switch (c.upTo(2)) {
   case 0: { typedef opengm::functions::learnable::LPotts<double, size_t, size_t> F; auto mk = [&]() { size_t n = c.upTo(3); std::vector<size_t> id; DVec ft; for (size_t i = 0; i < n; ++i) { id.push_back(c.upTo(nw - 1)); ft.push_back(c.sym(8) / 2.0); } return F(w, c.range(1, 4), id, ft); }; F f = mk(); c.label("potts"); roundTrip<F, double>(c, f, mk(), bd); break; }
   case 1: { typedef opengm::functions::learnable::LUnary<double, size_t, size_t> F; auto mk = [&]() { size_t l = c.range(1, 4); if (c.flip()) { std::vector<opengm::functions::learnable::FeaturesAndIndices<double, size_t> > fi(l); std::vector<size_t> pool = c.perm(nw); for (size_t q = 0; q < l; ++q) { size_t n = c.upTo(2); for (size_t i = 0; i < n && !pool.empty(); ++i) { fi[q].features.push_back(c.sym(8) / 2.0); fi[q].weightIds.push_back(pool.back()); pool.pop_back(); } } return F(w, fi); }
            bool first = c.flip() && l > 1; size_t sh[] = { l - first, (size_t)c.range(1, 3) }; marray::Marray<size_t> ids(sh, sh + 2); marray::Marray<double> ft(sh + 1, sh + 2); for (size_t j = 0; j < sh[1]; ++j) { ft(j) = c.sym(8) / 2.0; for (size_t q = 0; q < sh[0]; ++q) ids(q, j) = c.upTo(nw - 1); } return F(w, l, ids, ft, first); }; F f = mk(); c.label("unary"); roundTrip<F, double>(c, f, mk(), bd); break; }
   default: { typedef opengm::functions::learnable::LWeightedSumOfFunctions<double, size_t, size_t> F; auto mk = [&](bool firstMajor) { Vec s = rshape(c, 1, 3, 3); size_t n = c.upTo(3); std::vector<size_t> id; std::vector<marray::Marray<double> > ft; for (size_t i = 0; i < n; ++i) { id.push_back(c.upTo(nw - 1)); marray::Marray<double> a(s.begin(), s.end(), 0.0, firstMajor ? marray::FirstMajorOrder : marray::LastMajorOrder); forAll(s, [&](const Vec& x) { a(x.begin()) = c.sym(6) / 2.0; }); ft.push_back(a); } return F(s, w, id, ft); }; F f = mk(c.flip(0.3)); c.label("weighted sum"); roundTrip<F, double>(c, f, mk(false), bd); } }
}
PROP(constraints, 5000, 200000) {
   typedef double T; auto rv = [&](T& v, T& i) { v = val<T>(c); i = val<T>(c); }; T v, i;
   switch (c.upTo(4)) {
   case 0: { typedef opengm::LabelOrderFunction<T, size_t, size_t> F; auto mk = [&]() { rv(v, i); size_t a = c.range(1, 5), b = c.range(1, 5); std::vector<T> o; for (size_t q = 0; q < std::max(a, b) + c.upTo(2); ++q) o.push_back(c.sym(5) / 2.0); return F(a, b, o, v, i); }; F f = mk(); c.label("label order"); roundTrip<F, T>(c, f, mk(), NoBind()); break; }
   case 1: { typedef opengm::NumLabelsLimitationFunction<T, size_t, size_t> F; auto mk = [&]() { rv(v, i); Vec s = rshape(c, 1, 4, 4); return F(s.begin(), s.end(), c.upTo(4), v, i); }; F f = mk(); c.label("num labels"); roundTrip<F, T>(c, f, mk(), NoBind()); break; }
   case 2: { typedef opengm::LinearConstraintFunction<T, size_t, size_t> F; typedef F::LinearConstraintType LC; typedef opengm::IndicatorVariable<size_t, size_t> IV;
         auto mk = [&]() { rv(v, i); Vec s = rshape(c, 1, 3, 3); std::vector<LC> cs(c.range(1, 3)); for (auto& l : cs) { size_t m = c.range(1, 3); for (size_t q = 0; q < m; ++q) { IV iv; size_t np = c.range(1, 3); for (size_t p = 0; p < np; ++p) { size_t x = c.upTo(s.size() - 1); iv.add(x, c.upTo(s[x] - 1)); } iv.setLogicalOperatorType((IV::LogicalOperatorType)c.upTo(2)); l.add(iv, c.sym(6) / 2.0); }
            l.setBound(c.sym(6) / 2.0); l.setConstraintOperator(c.pick({ LC::LinearConstraintOperatorType::LessEqual, LC::LinearConstraintOperatorType::Equal, LC::LinearConstraintOperatorType::GreaterEqual })); } return F(s.begin(), s.end(), cs, v, i); }; F f = mk(); c.label("linear"); roundTrip<F, T>(c, f, mk(), NoBind()); break; }
   case 3: { typedef opengm::LabelCostFunction<T, size_t, size_t> F; auto mk = [&]() { Vec s = rshape(c, 1, 4, 4); size_t mx = *std::max_element(s.begin(), s.end()); if (c.flip()) { size_t l = c.upTo(mx - 1); return F(s.begin(), s.end(), l, val<T>(c)); } std::vector<T> co; for (size_t q = 0; q < mx + c.upTo(1); ++q) co.push_back(val<T>(c)); return F(s.begin(), s.end(), co.begin(), co.end()); }; F f = mk(); c.label("label cost"); roundTrip<F, T>(c, f, mk(), NoBind()); break; }
   default: { typedef opengm::SumConstraintFunction<T, size_t, size_t> F; auto mk = [&]() { Vec s = rshape(c, 1, 4, 4); size_t tot = 0, mx = *std::max_element(s.begin(), s.end()); for (size_t q : s) tot += q; bool sh = c.flip(); std::vector<T> co; for (size_t q = 0; q < (sh ? mx : tot); ++q) co.push_back(c.sym(8) / 2.0); return F(s.begin(), s.end(), co.begin(), co.end(), sh, c.sym(6) / 2.0, c.sym(8) / 2.0); }; F f = mk(); c.label("sum constraint"); roundTrip<F, T>(c, f, mk(), NoBind()); } }
}
