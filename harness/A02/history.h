#pragma once
#include "gen_model.hxx"
using namespace gen;

// reference factor: ascending variables, first coordinate fastest, arithmetic in T
template<class T> struct Ref {
   Vec vars, shape; std::vector<T> v = std::vector<T>(1, T(1));
   size_t idx(const std::map<size_t, size_t>& x) const { Vec c; for (size_t a : vars) c.push_back(x.at(a)); return idxOf(shape, c); }
   T at(const std::map<size_t, size_t>& x) const { return v[idx(x)]; }
   double mag() const { double m = 0; for (T a : v) m = std::max(m, std::fabs((double)a)); return m; }
   static std::map<size_t, size_t> asg(const Vec& vars, const Vec& c) { std::map<size_t, size_t> x; for (size_t i = 0; i < vars.size(); ++i) x[vars[i]] = c[i]; return x; }
};
template<class T, class OP> static Ref<T> combine(const Ref<T>& a, const Ref<T>& b, OP op, const Vec& L) {
   Ref<T> r; std::set_union(a.vars.begin(), a.vars.end(), b.vars.begin(), b.vars.end(), std::back_inserter(r.vars));
   for (size_t x : r.vars) r.shape.push_back(L[x]);
   r.v.clear(); forAll(r.shape, [&](const Vec& c) { auto x = Ref<T>::asg(r.vars, c); r.v.push_back(T(op(a.at(x), b.at(x)))); });
   return r;
}
template<class T> static Ref<T> scalar(T s) { Ref<T> r; r.v[0] = s; return r; }
template<class T> static Ref<T> restrictTo(const Ref<T>& a, const std::map<size_t, size_t>& fix) {
   Ref<T> r; for (size_t i = 0; i < a.vars.size(); ++i) if (!fix.count(a.vars[i])) { r.vars.push_back(a.vars[i]); r.shape.push_back(a.shape[i]); }
   r.v.clear(); forAll(r.shape, [&](const Vec& c) { auto x = Ref<T>::asg(r.vars, c); x.insert(fix.begin(), fix.end()); r.v.push_back(a.at(x)); });
   return r;
}
template<class T, class F> static Ref<T> eliminate(const Ref<T>& a, const std::set<size_t>& out, F fold) {
   Ref<T> r; Vec ev, es; for (size_t i = 0; i < a.vars.size(); ++i) if (out.count(a.vars[i])) { ev.push_back(a.vars[i]); es.push_back(a.shape[i]); } else { r.vars.push_back(a.vars[i]); r.shape.push_back(a.shape[i]); }
   r.v.clear();
   forAll(r.shape, [&](const Vec& c) { auto x = Ref<T>::asg(r.vars, c); std::vector<T> vals; forAll(es, [&](const Vec& e) { auto y = x; for (size_t i = 0; i < e.size(); ++i) y[ev[i]] = e[i]; vals.push_back(a.at(y)); }); r.v.push_back(fold(vals)); });
   return r;
}
enum Acc { MIN, MAX, SUM, PROD, INT, NACC };
template<class T> static T foldAcc(int acc, const std::vector<T>& v) {
   T r = acc == PROD ? T(1) : T(0); bool first = true;
   for (T x : v) { if (acc == MIN) r = first || x < r ? x : r; else if (acc == MAX) r = first || x > r ? x : r; else if (acc == PROD) r = T(r * x); else r = T(r + x); first = false; }
   return r;
}
template<class CB> static void withAcc(int acc, CB cb) {
   switch (acc) { case MIN: cb(opengm::Minimizer()); break; case MAX: cb(opengm::Maximizer()); break; case SUM: cb(opengm::Adder()); break; case PROD: cb(opengm::Multiplier()); break; default: cb(opengm::Integrator()); }
}
template<class T> struct Neg { T operator()(T x) const { return T(-x + 1); } };
template<class T> struct First { T operator()(T a, T b) const { return T(a * 2 - b); } }; // neither commutative nor associative

template<class T, class I, class L> struct World {
   typedef opengm::IndependentFactor<T, I, L> IF;
   typedef opengm::ExplicitFunction<T, I, L> E; typedef opengm::SparseFunction<T, I, L> S; typedef opengm::PottsFunction<T, I, L> P; typedef opengm::ConstantFunction<T, I, L> C;
   typedef typename opengm::meta::TypeListGenerator<S, E, C, P>::type TL;
   typedef opengm::GraphicalModel<T, opengm::Adder, TL, opengm::DiscreteSpace<I, L> > GM;
   typedef typename GM::FactorType GF;
   pbt::Ctx& c; Vec labels; GM gm; std::vector<Ref<T> > gref; std::vector<IF> f; std::vector<Ref<T> > r;
   const double limit = 3000;

   World(pbt::Ctx& c_) : c(c_) {
      Opt o; o.maxVars = 5; o.minVars = 1; o.maxLabels = 3; o.maxOrder = 3; o.maxFactors = 5; o.kinds = {EXPL, SPARSE, POTTS, CONSTANT}; o.order0 = true; o.amp = 6;
      Model m = genModel(c, o); for (auto& fu : m.funcs) for (auto& p : fu.p) p = std::floor(p);
      c.note(m.str()); labels = m.labels;
      gm = GM(typename GM::SpaceType(labels.begin(), labels.end()));
      std::vector<typename GM::FunctionIdentifier> ids;
      for (auto& fu : m.funcs) switch (fu.kind) {
         case SPARSE: ids.push_back(gm.addFunction(makeSparse<T, I, L>(fu))); break;
         case POTTS: ids.push_back(gm.addFunction(P(fu.shape[0], fu.shape[1], T(fu.p[0]), T(fu.p[1])))); break;
         case CONSTANT: ids.push_back(gm.addFunction(C(fu.shape.begin(), fu.shape.end(), T(fu.p[0])))); break;
         default: ids.push_back(gm.addFunction(makeExplicit<T, I, L>(fu)));
      }
      for (size_t i = 0; i < m.factors.size(); ++i) {
         gm.addFactor(ids[m.factors[i].f], m.factors[i].vars.begin(), m.factors[i].vars.end());
         Ref<T> q; q.vars = m.factors[i].vars; q.shape = shapeOf(m, q.vars); q.v.clear(); forAll(q.shape, [&](const Vec& x) { q.v.push_back(T(m.funcs[m.factors[i].f].eval(x))); }); gref.push_back(q);
      }
      f.resize(3); r.resize(3);
      for (size_t i = 0; i < f.size(); ++i) { fresh(i); }
   }
   T val() { return T(c.sym(6)); }
   void fresh(size_t i) {
      Ref<T> q; q.vars = c.subsetOf(labels.size(), 0.5); if (q.vars.size() > 4) q.vars.resize(4);
      for (size_t v : q.vars) q.shape.push_back(labels[v]);
      T k = val(); std::vector<I> vi(q.vars.begin(), q.vars.end()); bool fill = true;
      q.v.assign(prodOf(q.shape), k);
      switch (c.upTo(8)) {
         case 0: f[i] = IF(vi.begin(), vi.end(), q.shape.begin(), q.shape.end()); q.v.assign(q.v.size(), T(1)); break;
         case 1: f[i] = IF(vi.begin(), vi.end(), q.shape.begin(), q.shape.end(), k); break;
         case 2: f[i].assign(vi.begin(), vi.end(), q.shape.begin(), q.shape.end()); q.v.assign(q.v.size(), T(1)); break;
         case 3: f[i].assign(vi.begin(), vi.end(), q.shape.begin(), q.shape.end(), k); break;
         case 4: f[i] = IF(gm, vi.begin(), vi.end(), k); break;
         case 5: f[i].assign(gm, vi.begin(), vi.end(), k); break;
         case 6: { f[i].assign(gm, vi.begin(), vi.end()); for (size_t e = 0; e < q.v.size(); ++e) { q.v[e] = val(); f[i](e) = q.v[e]; } break; }
         case 7: f[i] = IF(k); q = scalar<T>(k); fill = false; break;
         default: f[i].assign(k); q = scalar<T>(k); fill = false; break;
      }
      cmp(f[i], q, "construction");
      if (fill && c.flip(0.8)) { size_t e = 0; forAll(q.shape, [&](const Vec& x) { q.v[e] = val(); size_t z[1] = {0}; if (x.empty()) f[i](z) = q.v[e]; else f[i](x.begin()) = q.v[e]; ++e; }); }
      r[i] = q;
   }
   void cmp(const IF& a, const Ref<T>& q, const char* what) {
      CHECK_EQ((size_t)a.numberOfVariables(), q.vars.size(), what << ": scope size");
      CHECK(Vec(a.variableIndicesBegin(), a.variableIndicesEnd()) == q.vars, what << ": scope");
      Vec vs; a.variableIndices(std::back_inserter(vs)); CHECK(vs == q.vars, what << ": variableIndices");
      CHECK_EQ((size_t)a.size(), q.v.size(), what << ": size");
      CHECK(Vec(a.shapeBegin(), a.shapeEnd()) == q.shape, what << ": shape " << pbt::vec(Vec(a.shapeBegin(), a.shapeEnd())));
      for (size_t d = 0; d < q.vars.size(); ++d) { CHECK_EQ((size_t)a.variableIndex(d), q.vars[d], what); CHECK_EQ((size_t)a.numberOfLabels(d), q.shape[d], what); CHECK_EQ((size_t)a.shape(d), q.shape[d], what); }
      size_t e = 0;
      forAll(q.shape, [&](const Vec& x0) {
         Vec x = x0; if (x.empty()) x.push_back(0); T v = a(x.begin());
         CHECK(v == q.v[e] || (v != v && q.v[e] != q.v[e]), what << ": value at " << pbt::vec(x0) << " of scope " << pbt::vec(q.vars) << " is " << v << ", expected " << q.v[e]);
         T w = v; if (q.vars.size() == 1) w = a(I(x[0])); else if (q.vars.size() == 2) w = a(I(x[0]), I(x[1])); else if (q.vars.size() == 3) w = a(I(x[0]), I(x[1]), I(x[2])); else if (q.vars.size() == 4) w = a(I(x[0]), I(x[1]), I(x[2]), I(x[3]));
         CHECK_EQ(w, v, what << ": access by separate labels");
         ++e;
      });
   }
   template<class OP, class EXPR> void expr(size_t d, const Ref<T>& a, const Ref<T>& b, OP op, EXPR e) { Ref<T> q = combine(a, b, op, labels); IF t = e(); cmp(t, q, "operator expression"); f[d] = t; r[d] = q; }
   // operator syntax: every operand kind on either side
   template<class OP, class X> void oper(size_t d, size_t i, size_t j, OP op, X x) {
      size_t g = gref.empty() ? 0 : c.upTo(gref.size() - 1), h = gref.empty() ? 0 : c.upTo(gref.size() - 1); T s = val(); if (x.needsDivisor && s == T(0)) s = T(2);
      int k = gref.empty() ? c.pick(std::vector<int>({0, 1, 2})) : c.upTo(7);
      if (x.needsDivisor) { auto bad = [](const Ref<T>& q) { for (T a : q.v) { double z = std::fabs((double)a); if (z != 1 && z != 2 && z != 4) return true; } return false; };
         if (std::is_integral<T>::value ? false : std::fabs((double)s) != 1 && std::fabs((double)s) != 4) s = T(2);
         if (((k == 0 || k == 4) && bad(r[j])) || (k == 2 && bad(r[i])) || (k == 3 && bad(gref[g])) || (k == 5 && bad(gref[h])) || (k == 7 && bad(gref[g]))) k = 1; }
      c.label("oper " + std::to_string(k));
      switch (k) {
         case 0: expr(d, r[i], r[j], op, [&] { return x(f[i], f[j]); }); break;
         case 1: expr(d, r[i], scalar<T>(s), op, [&] { return x(f[i], s); }); break;
         case 2: expr(d, scalar<T>(s), r[i], op, [&] { return x(s, f[i]); }); break;
         case 3: expr(d, r[i], gref[g], op, [&] { return x(f[i], gm[g]); }); break;
         case 4: expr(d, gref[g], r[j], op, [&] { return x(gm[g], f[j]); }); break;
         case 5: expr(d, gref[g], gref[h], op, [&] { return x(gm[g], gm[h]); }); break;
         case 6: expr(d, gref[g], scalar<T>(s), op, [&] { return x(gm[g], s); }); break;
         default: expr(d, scalar<T>(s), gref[g], op, [&] { return x(s, gm[g]); }); break;
      }
   }
   template<class OP, class X> void inplace(size_t d, size_t j, OP op, X x) {
      size_t g = gref.empty() ? 0 : c.upTo(gref.size() - 1); T s = val(); int k = gref.empty() ? c.upTo(1) : c.upTo(2); c.label("inplace " + std::to_string(k));
      Ref<T> q = combine(r[d], k == 0 ? r[j] : k == 1 ? scalar<T>(s) : gref[g], op, labels);
      if (k == 0) x(f[d], f[j]); else if (k == 1) x(f[d], s); else x(f[d], gm[g]);
      cmp(f[d], q, "in-place operator"); r[d] = q;
   }
};
#define BIN(NAME, SYM, DIV) struct NAME { static const bool needsDivisor = DIV; template<class A, class B> auto operator()(const A& a, const B& b) const { return a SYM b; } };
#define INP(NAME, SYM) struct NAME { template<class A, class B> void operator()(A& a, const B& b) const { a SYM b; } };
BIN(Plus, +, false) BIN(Minus, -, false) BIN(Mult, *, false) BIN(Div, /, true) BIN(Orr, ||, false) BIN(Andd, &&, false)
INP(PlusE, +=) INP(MinusE, -=) INP(MultE, *=) INP(OrE, |=) INP(AndE, &=)

// mode 0: everything but operator expressions, mode 1: with operator expressions (few accumulations: keeps compile time low)
template<class T, class I, class L, int MODE> static void history(pbt::Ctx& c) {
   World<T, I, L> w(c); typedef typename World<T, I, L>::IF IF;
   size_t steps = c.range(1, 12), kinds = 0; std::set<int> used;
   for (size_t st = 0; st < steps; ++st) {
      size_t d = c.upTo(2), i = c.upTo(2), j = c.upTo(2); int op = c.upTo(14); if (MODE == 1 && op == 10) op = 1; c.note(op); c.label("op " + std::to_string(op)); used.insert(op);
      for (size_t k = 0; k < 3; ++k) if (w.r[k].mag() > w.limit) w.fresh(k);
      switch (op) {
      case 0: w.fresh(d); break;
      case 1: if constexpr (MODE == 1) switch (c.upTo(5)) { case 0: w.oper(d, i, j, std::plus<T>(), Plus()); break; case 1: w.oper(d, i, j, std::minus<T>(), Minus()); break; case 2: w.oper(d, i, j, std::multiplies<T>(), Mult()); break;
            case 3: w.oper(d, i, j, std::divides<T>(), Div()); break; case 4: w.oper(d, i, j, std::logical_or<T>(), Orr()); break; default: w.oper(d, i, j, std::logical_and<T>(), Andd()); } break;
      case 2: case 3: if constexpr (MODE == 0) switch (c.upTo(4)) { case 0: w.inplace(d, j, std::plus<T>(), PlusE()); break; case 1: w.inplace(d, j, std::minus<T>(), MinusE()); break; case 2: w.inplace(d, j, std::multiplies<T>(), MultE()); break;
            case 3: w.inplace(d, j, std::logical_or<T>(), OrE()); break; default: w.inplace(d, j, std::logical_and<T>(), AndE()); } break;
      case 4: { // member operateBinary in all forms, non-commutative functor
         First<T> fn; Ref<T> q; size_t g = w.gref.empty() ? 0 : c.upTo(w.gref.size() - 1);
         switch (w.gref.empty() ? c.upTo(2) : c.upTo(3)) {
            case 0: { T s = w.val(); q = combine(w.r[d], scalar<T>(s), fn, w.labels); w.f[d].operateBinary(s, fn); break; }
            case 1: q = combine(w.r[d], w.r[j], fn, w.labels); w.f[d].operateBinary(w.f[j], fn); break;
            case 2: { if (i == d || j == d) continue; q = combine(w.r[i], w.r[j], fn, w.labels); w.f[d].operateBinary(w.f[i], w.f[j], fn); break; }
            default: q = combine(w.r[d], w.gref[g], fn, w.labels); w.f[d].operateBinary(w.gm[g], fn);
         }
         w.cmp(w.f[d], q, "operateBinary"); w.r[d] = q; break; }
      case 5: { Neg<T> fn; Ref<T> q = w.r[i]; for (T& x : q.v) x = fn(x);
         if (c.flip() && !w.gref.empty()) { size_t g = c.upTo(w.gref.size() - 1); q = w.gref[g]; for (T& x : q.v) x = fn(x); opengm::operateUnary(w.gm[g], w.f[d], fn); }
         else if (i == d) w.f[d].operateUnary(fn); else opengm::operateUnary(w.f[i], w.f[d], fn);
         w.cmp(w.f[d], q, "operateUnary"); w.r[d] = q; break; }
      case 6: { Ref<T> q = w.r[d]; T mn = *std::min_element(q.v.begin(), q.v.end()); for (T& x : q.v) x = T(x - mn); w.f[d].subtractOffset(); w.cmp(w.f[d], q, "subtractOffset"); w.r[d] = q; break; }
      case 7: { // fixVariables, also with variables outside of the scope
         Vec fv = c.subsetOf(w.labels.size(), 0.4); std::vector<I> fi(fv.begin(), fv.end()); std::vector<L> fl; std::map<size_t, size_t> fix; for (size_t v : fv) { fl.push_back(c.upTo(w.labels[v] - 1)); fix[v] = fl.back(); }
         w.r[d] = restrictTo(w.r[d], fix); w.f[d].fixVariables(fi.begin(), fi.end(), fl.begin()); w.cmp(w.f[d], w.r[d], "fixVariables"); break; }
      case 8: if (!w.gref.empty()) { size_t g = c.upTo(w.gref.size() - 1); if (c.flip(0.2)) { typename World<T, I, L>::GF t; t = w.gm[g]; w.f[d] = t; } else if (c.flip()) w.f[d] = w.gm[g]; else { IF t(w.gm[g]); w.f[d] = t; } w.r[d] = w.gref[g]; w.cmp(w.f[d], w.r[d], "conversion from factor"); } break;
      case 9: if (c.flip()) w.f[d] = w.f[i]; else { IF t(w.f[i]); w.f[d] = t; } w.r[d] = w.r[i]; w.cmp(w.f[d], w.r[d], "copy"); break;
      case 10: case 11: { // accumulate over all
         if constexpr (MODE == 1) break; else { int acc = c.upTo(NACC - 1); if (acc == PROD && w.r[i].mag() > 4) acc = MAX; c.label("acc " + std::to_string(acc)); bool fromGm = c.flip(0.3) && !w.gref.empty(); size_t g = fromGm ? c.upTo(w.gref.size() - 1) : 0; const Ref<T>& q = fromGm ? w.gref[g] : w.r[i];
         if (acc == PROD && (q.mag() > 4 || q.v.size() > 9)) acc = MIN;
         T expect = foldAcc(acc, q.v);
         withAcc(acc, [&](auto A) { typedef decltype(A) ACC; T v = T(99), v2 = T(99); std::vector<L> st(2, 1);
            if (fromGm) opengm::accumulate<ACC>(w.gm[g], v); else w.f[i].template accumulate<ACC>(v);
            CHECK_EQ(v, expect, "accumulate all, acc " << acc);
            if constexpr (!std::is_same<ACC, opengm::Adder>::value && !std::is_same<ACC, opengm::Multiplier>::value) {
               if (fromGm) opengm::accumulate<ACC>(w.gm[g], v2, st); else w.f[i].template accumulate<ACC>(v2, st);
               CHECK_EQ(v2, expect, "accumulate all with state, acc " << acc);
            }
            if (acc == MIN || acc == MAX) { CHECK_EQ(st.size(), q.vars.size(), "state size"); Vec x(st.begin(), st.end()); for (size_t k = 0; k < x.size(); ++k) CHECK(x[k] < q.shape[k], "state out of range"); CHECK_EQ(q.v[idxOf(q.shape, x)], v, "state attains the value"); }
         }); } break; }
      case 12: case 13: { // accumulate over some variables (possibly none, all, or foreign ones)
         if constexpr (MODE == 1) break; else { int acc = c.upTo(NACC - 1); bool fromGm = c.flip(0.3) && !w.gref.empty(); size_t g = fromGm ? c.upTo(w.gref.size() - 1) : 0; const Ref<T> src = fromGm ? w.gref[g] : w.r[i];
         if (acc == PROD && (src.mag() > 4 || src.v.size() > 9)) acc = MAX; c.label("acc-some " + std::to_string(acc));
         Vec ev = c.subsetOf(w.labels.size(), 0.5); std::set<size_t> es(ev.begin(), ev.end()); if (c.flip(0.3)) std::reverse(ev.begin(), ev.end()); std::vector<I> ei(ev.begin(), ev.end());
         Ref<T> q = eliminate(src, es, [&](const std::vector<T>& v) { return v.size() == 1 ? v[0] : foldAcc(acc, v); });
         withAcc(acc, [&](auto A) { typedef decltype(A) ACC;
            if (fromGm) opengm::accumulate<ACC>(w.gm[g], ei.begin(), ei.end(), w.f[d]);
            else if (i == d) w.f[d].template accumulate<ACC>(ei.begin(), ei.end());
            else w.f[i].template accumulate<ACC>(ei.begin(), ei.end(), w.f[d]);
         });
         w.cmp(w.f[d], q, "accumulate some"); w.r[d] = q; } break; }
      default: { const Ref<T>& q = w.r[d]; CHECK_EQ(w.f[d].min(), foldAcc(MIN, q.v), "min"); CHECK_EQ(w.f[d].max(), foldAcc(MAX, q.v), "max"); CHECK_EQ(w.f[d].sum(), foldAcc(SUM, q.v), "sum"); if (q.mag() <= 4 && q.v.size() <= 9) CHECK_EQ(w.f[d].product(), foldAcc(PROD, q.v), "product"); }
      }
      (void)kinds;
   }
   for (size_t k = 0; k < 3; ++k) w.cmp(w.f[k], w.r[k], "other factors unchanged");
   c.nontrivialIf(used.size() >= 3);
}
