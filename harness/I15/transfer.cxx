#include "gen_model.hxx"
#include <opengm/functions/constraint_functions/label_order_function.hxx>
#include <opengm/functions/soft_constraint_functions/label_cost_function.hxx>
#include <opengm/functions/soft_constraint_functions/sum_constraint_function.hxx>
#include <opengm/inference/auxiliary/lp_functiontransfer.hxx>
using namespace gen;
template<class T> struct Tr {
   typedef opengm::LPFunctionTransfer<T, size_t, size_t> X; typedef typename X::LinearConstraintType LC; typedef typename X::IndicatorVariableType IV;
   struct Sys { std::vector<IV> slack, ind; std::vector<T> co; std::vector<LC> cons; size_t n; };
   // through the static functions or through the functors
   template<class F> static Sys get(pbt::Ctx& c, const F& f) { Sys s; if (c.flip()) { s.n = X::numSlackVariables(f); X::getSlackVariablesOrder(f, s.slack); X::getSlackVariablesObjectiveCoefficients(f, s.co); X::getIndicatorVariables(f, s.ind); X::getLinearConstraints(f, s.cons); CHECK(X::template isTransferable<F>(), "transferable"); }
      else { typename X::IsTransferableFunctor a; a(f); CHECK(a.isTransferable_, "transferable"); typename X::NumSlackVariablesFunctor b; b(f); s.n = b.numSlackVariables_; typename X::GetSlackVariablesOrderFunctor d; d.order_ = &s.slack; d(f); typename X::GetSlackVariablesObjectiveCoefficientsFunctor e; e.coefficients_ = &s.co; e(f); typename X::GetIndicatorVariablesFunctor g; g.variables_ = &s.ind; g(f); typename X::GetLinearConstraintsFunctor h; h.constraints_ = &s.cons; h(f); }
      return s; }
   static bool isSlack(const IV& v, size_t nv, size_t& k) { if (std::distance(v.begin(), v.end()) != 1 || v.begin()->first < nv) return false; k = v.begin()->first - nv; return true; }
   static bool logic(const IV& v, const Vec& x) { size_t h = 0, n = 0; for (auto p = v.begin(); p != v.end(); ++p, ++n) h += x[p->first] == p->second; return v.getLogicalOperatorType() == IV::And ? h == n : v.getLogicalOperatorType() == IV::Or ? h > 0 : h == 0; }
   // the best objective over non-negative slack values that satisfy the constraints at a labeling is the value of the function
   template<class F> static void exact(pbt::Ctx& c, const F& f, const Vec& shape, const char* what) {
      Sys s = get(c, f); size_t nv = shape.size(), k; CHECK_EQ(s.slack.size(), s.n, what << ": slack variables"); CHECK_EQ(s.co.size(), s.n, what << ": objective coefficients");
      for (size_t i = 0; i < s.n; ++i) CHECK(isSlack(s.slack[i], nv, k) && k == i && s.slack[i].begin()->second == 0, what << ": slack variable " << i);
      std::vector<char> seen(s.n, 0); for (size_t i = 0; i < s.ind.size(); ++i) { if (isSlack(s.ind[i], nv, k)) { CHECK(k < s.n && !seen[k], what << ": each slack variable listed once"); seen[k] = 1; } for (size_t j = 0; j < i; ++j) CHECK(!(s.ind[i] == s.ind[j]), what << ": an indicator variable is listed twice"); for (auto p = s.ind[i].begin(); p != s.ind[i].end(); ++p) CHECK(p->first >= nv || p->second < shape[p->first], what << ": indicator variable of a label that does not exist"); }
      for (char z : seen) CHECK(z, what << ": slack variable not listed");
      for (auto& l : s.cons) for (auto v = l.indicatorVariablesBegin(); v != l.indicatorVariablesEnd(); ++v) CHECK(std::find(s.ind.begin(), s.ind.end(), *v) != s.ind.end(), what << ": a constraint uses an indicator variable that is not listed");
      forAll(shape, [&](const Vec& x) {
         // every constraint has at most one slack variable, so the slack values are independent intervals
         DVec lo(s.n, 0), hi(s.n, 1e300); for (auto& l : s.cons) { double fix = 0, sc = 0; size_t sl = s.n; auto co = l.coefficientsBegin(); for (auto v = l.indicatorVariablesBegin(); v != l.indicatorVariablesEnd(); ++v, ++co) { if (isSlack(*v, nv, k)) { CHECK(sl == s.n || sl == k, what << ": two slack variables in a constraint"); sl = k; sc += *co; } else if (logic(*v, x)) fix += *co; }
            double r = l.getBound() - fix; typedef typename LC::LinearConstraintOperatorType O; bool le = l.getConstraintOperator() != O::GreaterEqual, ge = l.getConstraintOperator() != O::LessEqual;
            if (sl == s.n || sc == 0) { CHECK((!le || r >= -1e-5) && (!ge || r <= 1e-5), what << ": labeling " << pbt::vec(x) << " violates a constraint without slack"); continue; }
            double q = r / sc; bool up = (le && sc > 0) || (ge && sc < 0), dn = (le && sc < 0) || (ge && sc > 0); if (up) hi[sl] = std::min(hi[sl], q); if (dn) lo[sl] = std::max(lo[sl], q); }
         double e = 0; for (size_t i = 0; i < s.n; ++i) { CHECK(lo[i] <= hi[i] + 1e-5, what << ": no slack value at " << pbt::vec(x)); double v = s.co[i] >= 0 ? lo[i] : hi[i]; CHECK(v < 1e200, what << ": unbounded"); e += s.co[i] * v; }
         CHECK_NEAR(e, (double)f(x.begin()), 1e-3, what << " at " << pbt::vec(x)); });
      c.nontrivialIf(prodOf(shape) > 1 && s.n > 0); c.labelIf(s.n > 1, "several slack variables"); }
   static Vec genShape(pbt::Ctx& c) { Vec s; size_t n = c.range(1, 5), L = c.range(1, 4); bool same = c.flip(0.5); for (size_t i = 0; i < n; ++i) s.push_back(same ? L : c.range(1, 4)); return s; }
   template<class F> static void copies(pbt::Ctx& c, const F& f, const Vec& shape, const char* what) { if (c.flip(0.7)) exact(c, f, shape, what); else if (c.flip()) { F g(f); exact(c, g, shape, what); } else { F g; g = f; exact(c, g, shape, what); } }
   static void sum(pbt::Ctx& c) { typedef opengm::SumConstraintFunction<T, size_t, size_t> F; Vec s = genShape(c); size_t mx = *std::max_element(s.begin(), s.end()), nc = 0; bool share = c.flip(), eq = std::set<size_t>(s.begin(), s.end()).size() == 1 && c.flip(); if (share) nc = mx; else for (size_t z : s) nc += z; std::vector<T> co; for (size_t i = 0; i < nc; ++i) co.push_back(c.sym(20) / (T)4);
      T la = c.upTo(8) / (T)2, bo = c.sym(20) / (T)4; c.note(pbt::str("shape ", pbt::vec(s), " coefficients ", pbt::vec(co), share ? " shared" : "", " lambda ", la, " bound ", bo)); if (eq) copies(c, F(s.size(), mx, co.begin(), co.end(), share, la, bo), s, "sum constraint (equal shape)"); else copies(c, F(s.begin(), s.end(), co.begin(), co.end(), share, la, bo), s, "sum constraint"); }
   static void cost(pbt::Ctx& c) { typedef opengm::LabelCostFunction<T, size_t, size_t> F; Vec s = genShape(c); size_t mx = *std::max_element(s.begin(), s.end()); bool eq = std::set<size_t>(s.begin(), s.end()).size() == 1 && c.flip(); std::vector<T> co; for (size_t i = 0; i < mx; ++i) co.push_back(c.flip(0.3) ? 0 : c.sym(20) / (T)4); size_t l = c.upTo(mx - 1); T one = c.sym(20) / (T)4; c.note(pbt::str("shape ", pbt::vec(s), " costs ", pbt::vec(co), " single ", l, " ", one));
      if (c.flip()) { if (eq) copies(c, F(s.size(), mx, co.begin(), co.end()), s, "label costs (equal shape)"); else copies(c, F(s.begin(), s.end(), co.begin(), co.end()), s, "label costs"); } else { if (eq) copies(c, F(s.size(), mx, l, one), s, "label cost (equal shape)"); else copies(c, F(s.begin(), s.end(), l, one), s, "label cost"); } }
   template<class F> static void not1(const F& f, const char* what) { CHECK(!X::template isTransferable<F>(), what << ": transferable"); typename X::IsTransferableFunctor a; a.isTransferable_ = true; a(f); CHECK(!a.isTransferable_, what << ": transferable (functor)"); int thrown = 0; std::vector<IV> v; std::vector<T> co; std::vector<LC> lc;
      try { X::numSlackVariables(f); } catch (opengm::RuntimeError&) { ++thrown; } try { X::getSlackVariablesOrder(f, v); } catch (opengm::RuntimeError&) { ++thrown; } try { X::getSlackVariablesObjectiveCoefficients(f, co); } catch (opengm::RuntimeError&) { ++thrown; } try { X::getIndicatorVariables(f, v); } catch (opengm::RuntimeError&) { ++thrown; } try { X::getLinearConstraints(f, lc); } catch (opengm::RuntimeError&) { ++thrown; } CHECK_EQ(thrown, 5, what << ": translations refused"); }
   static void refuse(pbt::Ctx& c) { size_t s[2] = {c.range(1, 4), c.range(1, 4)}; opengm::ExplicitFunction<T, size_t, size_t> e(s, s + 2, T(1)); opengm::PottsFunction<T, size_t, size_t> p(s[0], s[1], T(0), T(1)); std::vector<T> o(4, T(0)); opengm::LabelOrderFunction<T, size_t, size_t> l(s[0], s[1], o); not1(e, "table"); not1(p, "Potts"); not1(l, "label order"); c.nontrivial(); }
};
PROP(sum_constraint, 6000, 300000) { if (c.flip(0.3)) Tr<float>::sum(c); else Tr<double>::sum(c); }
PROP(label_cost, 6000, 300000) { if (c.flip(0.3)) Tr<float>::cost(c); else Tr<double>::cost(c); }
PROP(not_transferable, 60, 500) { if (c.flip(0.3)) Tr<float>::refuse(c); else Tr<double>::refuse(c); }
