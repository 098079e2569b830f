#include "gen_model.hxx"
#include <opengm/operations/and.hxx>
#include <opengm/operations/or.hxx>
#include <opengm/operations/logsumexp.hxx>
#include <opengm/operations/normalize.hxx>
#include <opengm/operations/weightedoperations.hxx>
#include <deque>
using namespace gen;
static const double INF = std::numeric_limits<double>::infinity();

// out-of-place, in-place and aliased forms agree with f; commutative, associative, neutral
template<class OP, class T, class F> static void laws(pbt::Ctx& c, T a, T b, T d, F f, double tol, T junk) {
   auto eq = [&](T x, T y, const char* w) { double p = (double)x, q = (double)y; CHECK(p == q || std::fabs(p - q) <= tol * (1 + std::fabs(q)), w << ": " << p << " vs " << q); };
   T r = f(a, b), o = junk;
   OP::op(a, b, o); eq(o, r, "op(a,b,out)");
   o = b; OP::op(a, o); eq(o, r, "op(a,inout)");
   o = a; OP::op(o, b, o); eq(o, r, "op(out,b,out)");
   o = b; OP::op(a, o, o); eq(o, r, "op(a,out,out)");
   o = a; OP::op(o, o); eq(o, f(a, a), "op(x,x)");
   o = junk; OP::op(b, a, o); eq(o, r, "commutative");
   T ab = junk, bd = junk, l = junk, q = junk; OP::op(a, b, ab); OP::op(ab, d, l); OP::op(b, d, bd); OP::op(a, bd, q); eq(l, q, "associative");
   T n = OP::template neutral<T>(), n2 = junk; OP::neutral(n2); eq(n2, n, "neutral(out)");
   o = junk; OP::op(a, n, o); eq(o, a, "neutral right"); OP::op(n, a, o); eq(o, a, "neutral left"); o = n; OP::op(a, o); eq(o, a, "neutral in place"); o = a; OP::op(n, o); eq(o, a, "neutral in place");
}
template<class OP, class T> static void inverse(pbt::Ctx& c, T a, T b, T junk) {
   T o = junk, p = junk; OP::op(a, b, o); OP::iop(o, b, p); CHECK_EQ((double)p, (double)a, "iop(op(a,b),b)");
   OP::iop(b, o); CHECK_EQ((double)o, (double)a, "in-place inverse");
}
template<class OP, class T> static void order(pbt::Ctx& c, T a, T b, bool less) {
   CHECK(OP::hasbop(), "hasbop");
   CHECK_EQ((bool)OP::bop(a, b), less ? a < b : a > b, "bop"); CHECK_EQ((bool)OP::ibop(a, b), less ? a > b : a < b, "ibop");
   T o = b; OP::op(a, o); CHECK(!OP::bop(a, o) && !OP::bop(b, o), "op returns the better value"); CHECK(o == a || o == b, "op returns an operand");
   o = b; OP::iop(a, o); CHECK(!OP::ibop(a, o) && !OP::ibop(b, o) && (o == a || o == b), "iop returns the worse value");
   T o3 = T(); OP::iop(a, b, o3); CHECK_EQ((double)o3, (double)o, "iop out of place");
   T n = OP::template neutral<T>(), i = OP::template ineutral<T>(), i2 = T(); OP::ineutral(i2); CHECK_EQ((double)i2, (double)i, "ineutral(out)");
   CHECK(!OP::bop(n, a), "nothing is worse than neutral"); CHECK(!OP::bop(a, i), "nothing is better than ineutral"); CHECK(OP::bop(i, n), "ineutral is better than neutral");
   T t = i; OP::iop(a, t); CHECK_EQ((double)t, (double)a, "ineutral is neutral for iop");
}
static double val(pbt::Ctx& c, bool inf = true) { if (inf && c.flip(0.1)) return c.flip() ? INF : -INF; return c.sym(40) / 4.0; }
template<class T> static T fin(pbt::Ctx& c) { return std::is_integral<T>::value ? T(c.sym(50)) : T(c.sym(200) / 4.0); }
static double pow2(pbt::Ctx& c) { double v = std::ldexp(1.0, (int)c.sym(6)); return c.flip(0.3) ? -v : v; }

template<class T> static void additive(pbt::Ctx& c) {
   T a = fin<T>(c), b = fin<T>(c), d = fin<T>(c), j = fin<T>(c); c.note(a).note(b).note(d); c.nontrivialIf(a != b && b != d);
   auto f = [](T x, T y) { return T(x + y); };
   laws<opengm::Adder, T>(c, a, b, d, f, 0, j); laws<opengm::Integrator, T>(c, a, b, d, f, 0, j);
   inverse<opengm::Adder, T>(c, a, b, j); inverse<opengm::Integrator, T>(c, a, b, j);
   CHECK(!opengm::Adder::hasbop() && !opengm::Integrator::hasbop(), "");
   CHECK_EQ((double)opengm::Adder::ineutral<T>(), 0.0, "");
   long k = c.range(1, 6); T o = j, s = 0; for (long i = 0; i < k; ++i) opengm::Adder::op(a, s);
   opengm::Adder::hop(a, T(k), o); CHECK_EQ((double)o, (double)s, "hop is repeated op"); o = a; opengm::Adder::hop(T(k), o); CHECK_EQ((double)o, (double)s, "in-place hop");
   T h = j; opengm::Adder::ihop(s, T(k), h); CHECK_EQ((double)h, (double)a, "ihop undoes hop"); opengm::Adder::ihop(T(k), s); CHECK_EQ((double)s, (double)a, "in-place ihop");
}
PROP(adder_double, 20000, 200000) { additive<double>(c); }
PROP(adder_float, 10000, 200000) { additive<float>(c); }
PROP(adder_int, 10000, 200000) { additive<int>(c); }
PROP(multiplier, 20000, 200000) {
   double a = pow2(c), b = pow2(c), d = pow2(c); c.note(a).note(b).note(d); c.nontrivialIf(a != b);
   laws<opengm::Multiplier, double>(c, a, b, d, [](double x, double y) { return x * y; }, 0, 3.0); inverse<opengm::Multiplier, double>(c, a, b, 3.0);
   long i = c.sym(12), j = c.sym(12), k = c.sym(12); laws<opengm::Multiplier, long>(c, i, j, k, [](long x, long y) { return x * y; }, 0, 5l);
   float fa = a, fb = b, fd = d; laws<opengm::Multiplier, float>(c, fa, fb, fd, [](float x, float y) { return x * y; }, 0, 5.f);
   CHECK_EQ(opengm::Multiplier::ineutral<double>(), 1.0, ""); CHECK(!opengm::Multiplier::hasbop(), "");
}
template<class T> static void minmax(pbt::Ctx& c, T a, T b, T d, T j) {
   laws<opengm::Minimizer, T>(c, a, b, d, [](T x, T y) { return x < y ? x : y; }, 0, j); laws<opengm::Maximizer, T>(c, a, b, d, [](T x, T y) { return x > y ? x : y; }, 0, j);
   order<opengm::Minimizer, T>(c, a, b, true); order<opengm::Maximizer, T>(c, a, b, false);
}
PROP(minimizer_maximizer, 30000, 300000) {
   double a = val(c), b = val(c), d = val(c); c.note(a).note(b).note(d); c.nontrivialIf(a != b);
   minmax<double>(c, a, b, d, 7); minmax<float>(c, a, b, d, 7);
   minmax<int>(c, fin<int>(c), fin<int>(c), fin<int>(c), 7); minmax<unsigned char>(c, c.upTo(255), c.upTo(255), c.upTo(255), 7);
   minmax<long>(c, fin<long>(c) * (1l << 40), fin<long>(c), fin<long>(c), 7);
}
PROP(and_or, 4000, 20000) {
   bool a = c.flip(), b = c.flip(), d = c.flip(), j = c.flip(); c.nontrivialIf(a != b);
   laws<opengm::And, bool>(c, a, b, d, [](bool x, bool y) { return x && y; }, 0, j); laws<opengm::Or, bool>(c, a, b, d, [](bool x, bool y) { return x || y; }, 0, j);
   laws<opengm::And, int>(c, a, b, d, [](int x, int y) { return x & y; }, 0, (int)j); laws<opengm::Or, int>(c, a, b, d, [](int x, int y) { return x | y; }, 0, (int)j);
   laws<opengm::And, unsigned char>(c, a, b, d, [](int x, int y) { return x & y; }, 0, (unsigned char)j); laws<opengm::Or, unsigned char>(c, a, b, d, [](int x, int y) { return x | y; }, 0, (unsigned char)j);
   CHECK(opengm::Or::ineutral<bool>() == true, "");
   CHECK_EQ((bool)opengm::And::bop(a, b), a && b, ""); CHECK_EQ((bool)opengm::And::ibop(a, b), !(a && b), ""); CHECK_EQ((bool)opengm::Or::bop(a, b), a || b, ""); CHECK_EQ((bool)opengm::Or::ibop(a, b), !(a || b), "");
   int ia = a, ib = b; CHECK_EQ((bool)opengm::And::bop(ia, ib), a && b, ""); CHECK_EQ((bool)opengm::Or::ibop(ia, ib), !(a || b), "");
}
PROP(logsumexp, 20000, 200000) {
   auto gen1 = [&] { return c.flip(0.15) ? -INF : c.flip(0.2) ? c.sym(8000) / 8.0 : c.sym(80) / 8.0; };
   double a = gen1(), b = gen1(), d = gen1(); c.note(a).note(b).note(d); c.nontrivialIf(a != b);
   auto ref = [](double x, double y) { double m = std::max(x, y); if (m == -INF) return m; return m + (double)std::log(std::exp((long double)(x - m)) + std::exp((long double)(y - m))); };
   laws<opengm::Logsumexp, double>(c, a, b, d, ref, 1e-9, c.sym(5) * 1.0);
   CHECK(!opengm::Logsumexp::hasbop(), "");
   if (std::fabs(a) < 5 && std::fabs(b) < 5) { double o = 0, p = 9; opengm::Logsumexp::op(a, b, o); opengm::Logsumexp::iop(o, b, p); CHECK_NEAR(p, a, 1e-6, "inverse"); }
}
// accumulating (value, state) pairs
template<class OP> static void accum(pbt::Ctx& c, bool mn) {
   opengm::Accumulation<double, size_t, OP> acc; size_t dim = c.range(1, 3);
   long rounds = c.range(1, 3);
   for (long r = 0; r < rounds; ++r) {
      if (r) acc.clear();
      CHECK_EQ(acc.value(), mn ? INF : -INF, "empty accumulation"); CHECK_EQ(acc.neutral(), mn ? INF : -INF, "neutral element"); CHECK_EQ(acc.size(), (size_t)0, "");
      long n = c.range(1, 12); std::vector<std::pair<double, Vec> > seq; double best = mn ? INF : -INF;
      size_t form = c.upTo(2);
      for (long i = 0; i < n; ++i) {
         double v = c.flip(0.1) ? (mn ? -INF : INF) : c.sym(6); Vec st; for (size_t k = 0; k < dim; ++k) st.push_back(c.upTo(4));
         seq.push_back(std::make_pair(v, st)); best = mn ? std::min(best, v) : std::max(best, v);
         if (form == 0) { opengm::FastSequence<size_t> fs(dim); for (size_t k = 0; k < dim; ++k) fs[k] = st[k]; acc(v, fs); }
         else if (form == 1) acc(v, st); else acc(v, std::vector<unsigned>(st.begin(), st.end()));
         CHECK_EQ(acc.value(), best, "value after " << i);
         opengm::FastSequence<size_t> got; acc.state(got); CHECK_EQ(got.size(), dim, "state size"); std::vector<int> got2; acc.state(got2); CHECK_EQ(got2.size(), dim, "");
         Vec g; for (size_t k = 0; k < dim; ++k) { g.push_back(got[k]); CHECK_EQ((size_t)got2[k], (size_t)got[k], ""); CHECK_EQ((size_t)acc.state(k), (size_t)got[k], ""); }
         bool ok = false; for (auto& p : seq) if (p.second == g && p.first == best) ok = true;
         CHECK(ok, "state " << pbt::vec(g) << " does not attain " << best); CHECK_EQ(acc.size(), dim, "");
      }
      c.nontrivialIf(n > 1);
   }
}
PROP(accumulation, 20000, 200000) { if (c.flip()) accum<opengm::Minimizer>(c, true); else accum<opengm::Maximizer>(c, false); }
PROP(accumulation_sums, 10000, 100000) {
   opengm::Accumulation<double, size_t, opengm::Integrator> in; opengm::Accumulation<double, size_t, opengm::Adder> ad; opengm::Accumulation<double, size_t, opengm::Multiplier> mu; opengm::Accumulation<double, size_t, opengm::Minimizer> mi;
   double s = 0, p = 1, m = INF; long n = c.range(0, 10); c.nontrivialIf(n > 1);
   opengm::AccumulationFunctor<opengm::Multiplier, double> fm; opengm::AccumulationFunctor<opengm::Minimizer, double> fi; opengm::AccumulationFunctor<opengm::Adder, double> fa(3.0); opengm::MinMaxFunctor<double> mm; double mx = -INF;
   for (long i = 0; i < n; ++i) { double v = c.flip() ? pow2(c) : c.sym(8); in(v); ad(v); mu(v); mi(v); s += v; p *= v; m = std::min(m, v); mx = std::max(mx, v); fm(v); fi(v); fa(v); mm(v); }
   CHECK_EQ(in.value(), s, ""); CHECK_EQ(ad.value(), s, ""); CHECK_EQ(mu.value(), p, ""); CHECK_EQ(mi.value(), m, ""); CHECK_EQ(fm.value(), p, ""); CHECK_EQ(fi.value(), m, ""); CHECK_EQ(fa.value(), s + 3, "");
   CHECK_EQ(in.neutral(), 0.0, ""); CHECK_EQ(mu.neutral(), 1.0, ""); CHECK_EQ(mi.neutral(), INF, "");
   if (n) { CHECK_EQ(mm.min(), m, ""); CHECK_EQ(mm.max(), mx, ""); }
   in.clear(); mu.clear(); CHECK_EQ(in.value(), 0.0, "cleared"); CHECK_EQ(mu.value(), 1.0, "cleared");
}
// factor-valued operations
typedef opengm::IndependentFactor<double, size_t, size_t> IF;
struct RF { Vec vars, shape; DVec v; };
static IF mk(const RF& r) { IF f(r.vars.begin(), r.vars.end(), r.shape.begin(), r.shape.end()); size_t i = 0; forAll(r.shape, [&](const Vec& x) { f(x.begin()) = r.v[i++]; }); return f; }
static RF genRF(pbt::Ctx& c, const Vec& labels, const Vec& vars, bool positive) { RF r; r.vars = vars; for (size_t v : vars) r.shape.push_back(labels[v]); for (size_t i = 0; i < prodOf(r.shape); ++i) r.v.push_back(positive ? std::ldexp(1.0, (int)c.sym(4)) : c.sym(20) / 4.0); return r; }
static void same(pbt::Ctx& c, const IF& f, const RF& r, const DVec& e, const char* what) {
   CHECK_EQ(f.numberOfVariables(), r.vars.size(), what); size_t i = 0;
   forAll(r.shape, [&](const Vec& x) { CHECK_NEAR(f(x.begin()), e[i], 1e-9, what << " at " << pbt::vec(x)); ++i; });
}
PROP(factor_valued, 10000, 100000) {
   Vec labels = {2, 3, 2, 1}; Vec vars = c.subset(4, c.range(1, 3)); RF a = genRF(c, labels, vars, true), b = genRF(c, labels, vars, true), n = genRF(c, labels, vars, false), q = genRF(c, labels, vars, false);
   c.nontrivialIf(a.v != b.v); size_t N = a.v.size(); double w = c.pick({2.0, 0.5, 1.0, 3.0, 0.25});
   c.note(pbt::vec(a.v) + pbt::vec(b.v) + pbt::vec(n.v) + pbt::vec(q.v) + " w=" + pbt::str(w));
   DVec e(N); auto P = [&](auto fn) { for (size_t i = 0; i < N; ++i) e[i] = fn(i); return e; };
   typedef opengm::Multiplier M; typedef opengm::Adder A; typedef opengm::WeightedOperations W;
   { IF f = mk(a); M::hop(w, f); same(c, f, a, P([&](size_t i) { return std::pow(a.v[i], w); }), "hop"); M::ihop(w, f); same(c, f, a, a.v, "ihop undoes hop"); }
   { IF f = mk(a), g; M::hop(f, w, g); same(c, g, a, P([&](size_t i) { return std::pow(a.v[i], w); }), "hop out"); IF h; M::ihop(g, w, h); same(c, h, a, a.v, "ihop out"); }
   { IF f = mk(a); M::op(mk(b), f); same(c, f, a, P([&](size_t i) { return a.v[i] * b.v[i]; }), "op"); M::iop(mk(b), f); same(c, f, a, a.v, "iop"); }
   { IF o; W::weightedMean<A>(mk(n), mk(q), w, o); same(c, o, n, P([&](size_t i) { return n.v[i] * w + q.v[i] * (1 - w); }), "weightedMean adder"); }
   { IF o; W::weightedMean<M>(mk(a), mk(b), w, o); same(c, o, a, P([&](size_t i) { return std::pow(a.v[i], w) * std::pow(b.v[i], 1 - w); }), "weightedMean multiplier"); }
   { IF o = mk(q); W::wop<A>(mk(n), w, o); same(c, o, n, P([&](size_t i) { return q.v[i] + n.v[i] * w; }), "wop"); W::wiop<A>(mk(n), w, o); same(c, o, n, q.v, "wiop undoes wop"); }
   { IF o = mk(q); W::iwop<A>(mk(n), w, o); same(c, o, n, P([&](size_t i) { return q.v[i] + n.v[i] / w; }), "iwop"); W::iwiop<A>(mk(n), w, o); same(c, o, n, q.v, "iwiop undoes iwop"); }
   { IF o = mk(b); W::wop<M>(mk(a), w, o); same(c, o, a, P([&](size_t i) { return b.v[i] * std::pow(a.v[i], w); }), "wop mult"); W::wiop<M>(mk(a), w, o); same(c, o, a, b.v, "wiop mult"); }
   { IF o = mk(b); W::iwop<M>(mk(a), w, o); same(c, o, a, P([&](size_t i) { return b.v[i] * std::pow(a.v[i], 1 / w); }), "iwop mult"); W::iwiop<M>(mk(a), w, o); same(c, o, a, b.v, "iwiop mult"); }
   double s = 0, mx = -INF, mn = INF, nmin = INF, nmax = -INF; for (double v : a.v) { s += v; mx = std::max(mx, v); mn = std::min(mn, v); } for (double v : n.v) { nmin = std::min(nmin, v); nmax = std::max(nmax, v); }
   { IF o = mk(a); opengm::Normalization::normalize<opengm::Integrator, M>(o); same(c, o, a, P([&](size_t i) { return a.v[i] / s; }), "normalize sum-product"); }
   { IF o = mk(a); opengm::Normalization::normalize<opengm::Maximizer, M>(o); same(c, o, a, P([&](size_t i) { return a.v[i] / mx; }), "normalize max-product"); }
   { IF o = mk(n); opengm::Normalization::normalize<opengm::Minimizer, A>(o); same(c, o, n, P([&](size_t i) { return n.v[i] - nmin; }), "normalize min-sum"); }
   { IF o = mk(n); opengm::Normalization::normalize<opengm::Maximizer, A>(o); same(c, o, n, P([&](size_t i) { return n.v[i] - nmax; }), "normalize max-sum"); }
   { double d1 = n.v[0], d2 = q.v[0], o = 0; W::weightedMean<A>(d1, d2, w, o); CHECK_NEAR(o, d1 * w + d2 * (1 - w), 1e-12, ""); }
}
