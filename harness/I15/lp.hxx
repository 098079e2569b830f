// a small exact LP / MIP solver behind the LPSolverInterface, the models and the checks shared by the files of this property
#pragma once
#include "gen_model.hxx"
#include <limits>
#include <list>
#include <map>
#include <opengm/functions/constraint_functions/label_order_function.hxx>
#include <opengm/functions/constraint_functions/num_labels_limitation_function.hxx>
#include <opengm/functions/constraint_functions/linear_constraint_function.hxx>
#include <opengm/functions/soft_constraint_functions/label_cost_function.hxx>
#include <opengm/functions/soft_constraint_functions/sum_constraint_function.hxx>
#include <opengm/inference/auxiliary/lp_solver/lp_solver_interface.hxx>
#include <opengm/inference/auxiliary/lp_functiontransfer.hxx>
#include <opengm/inference/lp_inference_base.hxx>
namespace lp {
using namespace gen;
struct Row { std::vector<size_t> id; DVec co; double bound; int op; std::string name; }; // op 0 <=, 1 ==, 2 >=
// min c x subject to rows, lo <= x <= hi: bounded variable primal simplex on a dense tableau with Bland's rule
struct Simplex {
   std::vector<DVec> T; DVec b, ub, d; std::vector<size_t> basis; std::vector<char> flipped; size_t n; double z;
   static double eps() { return 1e-9; }
   void flip(size_t j) { for (size_t i = 0; i < T.size(); ++i) { b[i] -= T[i][j] * ub[j]; T[i][j] = -T[i][j]; } z += d[j] * ub[j]; d[j] = -d[j]; flipped[j] ^= 1; }
   void pivot(size_t r, size_t j) { double p = T[r][j]; for (double& v : T[r]) v /= p; b[r] /= p;
      for (size_t i = 0; i < T.size(); ++i) if (i != r && T[i][j] != 0) { double f = T[i][j]; for (size_t k = 0; k < n; ++k) T[i][k] -= f * T[r][k]; T[i][j] = 0; b[i] -= f * b[r]; if (std::fabs(b[i]) < 1e-11) b[i] = 0; }
      double f = d[j]; if (f != 0) { for (size_t k = 0; k < n; ++k) d[k] -= f * T[r][k]; d[j] = 0; z += f * b[r]; } basis[r] = j; }
   bool run() { // false: unbounded
      std::vector<char> isB(n, 0); for (size_t j : basis) isB[j] = 1;
      for (size_t it = 0; ; ++it) { if (it > 200000) throw std::logic_error("simplex does not end");
         size_t j = n; if (it < 200) { double best = -eps(); for (size_t k = 0; k < n; ++k) if (!isB[k] && ub[k] > 0 && d[k] < best) { best = d[k]; j = k; } } else for (size_t k = 0; k < n; ++k) if (!isB[k] && ub[k] > 0 && d[k] < -eps()) { j = k; break; }
         if (j == n) return true;
         double t = ub[j]; int how = 0; size_t r = 0;
         for (size_t i = 0; i < T.size(); ++i) { double a = T[i][j]; if (a > eps()) { double q = b[i] / a; if (q < t - 1e-12 || (how && q < t + 1e-12 && basis[i] < basis[r])) { t = q; how = 1; r = i; } }
            else if (a < -eps() && ub[basis[i]] < 1e100) { double q = (ub[basis[i]] - b[i]) / -a; if (q < t - 1e-12 || (how && q < t + 1e-12 && basis[i] < basis[r])) { t = q; how = 2; r = i; } } }
         if (how == 0) { if (t > 1e100) return false; flip(j); continue; }
         if (how == 2) { size_t k = basis[r]; b[r] = ub[k] - b[r]; for (size_t q = 0; q < n; ++q) if (q != k) T[r][q] = -T[r][q]; flipped[k] ^= 1; d[k] = 0; }
         isB[basis[r]] = 0; isB[j] = 1; pivot(r, j); } }
   // 1 optimal, 0 infeasible, 2 unbounded
   int solve(const std::vector<Row>& rows, const DVec& c, const DVec& lo, const DVec& hi, DVec& x, double& val) {
      size_t nv = c.size(), m = rows.size(); n = nv + m; size_t art = n; for (auto& r : rows) { (void)r; ++n; }
      T.assign(m, DVec(n, 0)); b.assign(m, 0); ub.assign(n, 1e300); basis.assign(m, 0); flipped.assign(n, 0); for (size_t j = 0; j < nv; ++j) { ub[j] = hi[j] - lo[j]; if (ub[j] < 0) return 0; }
      for (size_t i = 0; i < m; ++i) { const Row& r = rows[i]; double rhs = r.bound; for (size_t k = 0; k < r.id.size(); ++k) { T[i][r.id[k]] += r.co[k]; rhs -= r.co[k] * lo[r.id[k]]; }
         if (r.op == 0) T[i][nv + i] = 1; else if (r.op == 2) T[i][nv + i] = -1; else ub[nv + i] = 0;
         if (rhs < 0) { for (double& v : T[i]) v = -v; rhs = -rhs; } b[i] = rhs;
         if (T[i][nv + i] == 1) { basis[i] = nv + i; ub[art + i] = 0; } else { T[i][art + i] = 1; basis[i] = art + i; } }
      d.assign(n, 0); z = 0; for (size_t j = art; j < n; ++j) if (ub[j] > 0) d[j] = 1; for (size_t i = 0; i < m; ++i) if (basis[i] >= art) { for (size_t k = 0; k < n; ++k) d[k] -= T[i][k]; z += b[i]; }
      for (size_t i = 0; i < m; ++i) d[basis[i]] = 0;
      run(); double inf = 0; for (size_t i = 0; i < m; ++i) if (basis[i] >= art) inf += b[i]; for (size_t j = art; j < n; ++j) if (flipped[j]) inf += 1e-3; if (inf > 1e-7) return 0;
      for (size_t j = art; j < n; ++j) ub[j] = 0;
      d.assign(n, 0); z = 0; for (size_t j = 0; j < nv; ++j) { d[j] = flipped[j] ? -c[j] : c[j]; } DVec c0(d);
      for (size_t i = 0; i < m; ++i) if (c0[basis[i]] != 0) { double f = c0[basis[i]]; for (size_t k = 0; k < n; ++k) d[k] -= f * T[i][k]; } for (size_t i = 0; i < m; ++i) d[basis[i]] = 0;
      if (!run()) return 2;
      DVec y(n, 0); for (size_t i = 0; i < m; ++i) y[basis[i]] = b[i]; x.assign(nv, 0); val = 0; for (size_t j = 0; j < nv; ++j) { x[j] = lo[j] + (flipped[j] ? ub[j] - y[j] : y[j]); if (std::fabs(x[j] - std::floor(x[j] + 0.5)) < 1e-9) x[j] = std::floor(x[j] + 0.5); val += c[j] * x[j]; }
      return 1; }
};
struct TooMany : std::runtime_error { TooMany(const std::string& s) : std::runtime_error(s) {} };
struct Solver;
typedef opengm::LPSolverInterface<Solver, double, size_t, std::vector<double>::const_iterator, double> Base;
struct Solver : Base {
   typedef Base::Parameter Parameter;
   Solver(const Parameter& p = Parameter()) : Base(p), dir(Minimize), val(0), solves(0), maxBatch(0), batch(0), finished(0), unlimited(0) {}
   std::vector<char> integer; DVec lo, hi, c; Objective dir; std::vector<Row> rows; DVec x; double val; size_t solves, maxBatch, batch, finished; size_t unlimited; Vec pins; bool sawUnbounded = false, wrong = false;
   void add(size_t n, double l, double u, bool i) { for (size_t k = 0; k < n; ++k) { integer.push_back(i); lo.push_back(l); hi.push_back(u); c.push_back(0); } }
   static double infinity_impl() { return 1e300; }
   void addContinuousVariables_impl(size_t n, double l, double u) { add(n, l, u, false); }
   void addBinaryVariables_impl(size_t n) { add(n, 0, 1, true); }
   void setObjective_impl(Objective o) { dir = o; }
   template<class It> void setObjectiveValue_impl(It b, It e) { size_t k = 0; for (; b != e; ++b, ++k) { if (k >= c.size()) { wrong = true; return; } c[k] = *b; } if (k != c.size()) wrong = true; }
   template<class V, class C> void addRow(V b, V e, C co, double bound, int op, const std::string& name) { Row r; for (; b != e; ++b, ++co) { r.id.push_back(*b); r.co.push_back(*co); if (r.id.back() >= c.size()) throw std::logic_error("constraint on a variable that was never added"); } r.bound = bound; r.op = op; r.name = name; rows.push_back(r); ++batch; }
   template<class V, class C> void addEqualityConstraint_impl(V b, V e, C co, double bound, const std::string& name = "") { addRow(b, e, co, bound, 1, name); }
   template<class V, class C> void addLessEqualConstraint_impl(V b, V e, C co, double bound, const std::string& name = "") { addRow(b, e, co, bound, 0, name); }
   template<class V, class C> void addGreaterEqualConstraint_impl(V b, V e, C co, double bound, const std::string& name = "") { addRow(b, e, co, bound, 2, name); }
   void addConstraintsFinished_impl() { if (finished) maxBatch = std::max(maxBatch, batch); batch = 0; ++finished; }
   void addConstraintsFinished_impl(double& t) { addConstraintsFinished_impl(); t = 0; }
   bool solve_impl(double& t) { t = 0; return solve_impl(); }
   bool solve_impl() {
      if (++solves > 400) throw TooMany("solved 400 times without an end");
      DVec l(lo), h(hi); for (size_t k = 0; k < pins.size(); ++k) l[k] = h[k] = pins[k];
      DVec cc(c); if (dir == Maximize) for (double& v : cc) v = -v;
      bool have = false; double best = 0; DVec bx; size_t nodes = 0; Simplex S; std::vector<std::pair<DVec, DVec> > st; st.push_back({l, h});
      while (!st.empty()) { if (++nodes > 4000) throw TooMany("branch and bound"); auto cur = st.back(); st.pop_back(); DVec y; double v; int r = S.solve(rows, cc, cur.first, cur.second, y, v); if (r == 2) { sawUnbounded = true; return false; } if (r == 0) continue;
         if (have && v >= best - 1e-9) continue; size_t k = y.size(); double fr = 1e-7; for (size_t j = 0; j < y.size(); ++j) if (integer[j]) { double f = std::fabs(y[j] - std::floor(y[j] + 0.5)); if (f > fr) { fr = f; k = j; } }
         if (k == y.size()) { have = true; best = v; bx = y; continue; }
         auto a = cur, b = cur; a.second[k] = 0; b.first[k] = 1; if (y[k] > 0.5) { st.push_back(a); st.push_back(b); } else { st.push_back(b); st.push_back(a); } }
      if (!have) return false; x = bx; val = dir == Maximize ? -best : best; return true; }
   std::vector<double>::const_iterator solutionBegin_impl() const { return x.begin(); }
   std::vector<double>::const_iterator solutionEnd_impl() const { return x.end(); }
   double solution_impl(size_t i) const { return x[i]; }
   double objectiveFunctionValue_impl() const { return val; }
   double objectiveFunctionValueBound_impl() const { return val; }
};
template<class GM, class ACC> struct Inf;
}
namespace opengm {
template<class GM, class ACC> struct LPInferenceTraits<lp::Inf<GM, ACC> > {
   typedef ACC AccumulationType; typedef GM GraphicalModelType; typedef lp::Solver SolverType; typedef lp::Solver::SolverIndexType SolverIndexType; typedef lp::Solver::SolverValueType SolverValueType;
   typedef lp::Solver::SolverSolutionIteratorType SolverSolutionIteratorType; typedef lp::Solver::SolverTimingType SolverTimingType; typedef lp::Solver::Parameter SolverParameterType; };
}
namespace lp {
template<class GM, class ACC> struct Inf : Solver, opengm::LPInferenceBase<Inf<GM, ACC> > {
   typedef opengm::LPInferenceBase<Inf<GM, ACC> > IB; typedef ACC AccumulationType; typedef GM GraphicalModelType; typedef typename IB::Parameter Parameter;
   Inf(const GM& gm, const Parameter& p = Parameter()) : Solver(p), IB(gm, p) {}
   std::string name() const { return "LP by test solver"; }
};
typedef opengm::IndicatorVariable<size_t, size_t> IV; typedef opengm::LinearConstraint<double, size_t, size_t> LC;
typedef opengm::LabelOrderFunction<double, size_t, size_t> FOrder; typedef opengm::NumLabelsLimitationFunction<double, size_t, size_t> FNum; typedef opengm::LinearConstraintFunction<double, size_t, size_t> FLin;
typedef opengm::LabelCostFunction<double, size_t, size_t> FCost; typedef opengm::SumConstraintFunction<double, size_t, size_t> FSum; typedef opengm::ExplicitFunction<double, size_t, size_t> FExp; typedef opengm::PottsFunction<double, size_t, size_t> FPotts;
typedef opengm::meta::TypeListGenerator<FExp, FPotts, FOrder, FNum, FLin, FCost, FSum>::type FL;
typedef opengm::GraphicalModel<double, opengm::Adder, FL, opengm::DiscreteSpace<size_t, size_t> > GM;
struct Fac { Vec vars; DVec table; bool hard; std::vector<char> ok; std::string what; bool transfer; };
struct Mod { Vec labels; std::vector<Fac> f; size_t hard = 0, transfer = 0, parallel = 0;
   double energy(const Vec& x, bool soft) const { double r = 0; for (auto& q : f) if (soft || !q.hard) r += q.table[at(q, x)]; return r; }
   bool feasible(const Vec& x) const { for (auto& q : f) if (q.hard && !q.ok[at(q, x)]) return false; return true; }
   size_t at(const Fac& q, const Vec& x) const { size_t i = 0, s = 1; for (size_t v : q.vars) { i += x[v] * s; s *= labels[v]; } return i; } };
// integral values keep the arithmetic of the solver exact; sign = +1 for minimisation, -1 for maximisation
inline Mod build(pbt::Ctx& c, GM& gm, double sign, bool wantHard, bool wantSoft, bool treeOnly = false) {
   Mod m; size_t n = c.range(1, 4), L = c.range(1, 3); bool same = c.flip(0.6); for (size_t i = 0; i < n; ++i) m.labels.push_back(same ? std::max<size_t>(L, c.flip(0.7) ? 2 : 1) : c.range(1, 3));
   gm = GM(opengm::DiscreteSpace<size_t, size_t>(m.labels.begin(), m.labels.end()));
   auto put = [&](const Fac& q) { m.f.push_back(q); c.note(pbt::str("factor ", pbt::vec(q.vars), " ", q.what)); };
   auto shapeOfV = [&](const Vec& v) { Vec s; for (size_t k : v) s.push_back(m.labels[k]); return s; };
   for (size_t i = 0; i < n; ++i) if (c.flip(0.8)) { Fac q; q.hard = q.transfer = false; q.vars = {i}; Vec s = shapeOfV(q.vars); FExp f(s.begin(), s.end()); for (size_t k = 0; k < s[0]; ++k) { double v = c.sym(6); q.table.push_back(v); f(&k) = v; } q.what = "table " + pbt::vec(q.table); gm.addFactor(gm.addFunction(f), q.vars.begin(), q.vars.end()); put(q); }
   size_t nf = treeOnly ? n - 1 : c.upTo(4); std::map<Vec, int> seen;
   for (size_t k = 0; k < nf; ++k) {
      Fac q; q.hard = q.transfer = false; if (treeOnly) { size_t p = c.upTo(k); q.vars = {p, k + 1}; } else { size_t ar = std::min<size_t>(n, c.pick({2, 2, 2, 3, 3, 0, 1})); q.vars = c.subset(n, ar); std::sort(q.vars.begin(), q.vars.end()); }
      Vec s = shapeOfV(q.vars); if (seen[q.vars]++ && q.vars.size() > 1) m.parallel++;
      if (q.vars.size() == 2 && c.flip(0.3)) { double a = c.sym(5), b = c.sym(5); FPotts f(s[0], s[1], a, b); forAll(s, [&](const Vec& x) { q.table.push_back(x[0] == x[1] ? a : b); }); q.what = pbt::str("potts ", a, " ", b); gm.addFactor(gm.addFunction(f), q.vars.begin(), q.vars.end()); }
      else { FExp f(s.begin(), s.end()); if (s.empty()) { f = FExp(c.sym(6)); size_t z = 0; q.table.push_back(f(&z)); } else forAll(s, [&](const Vec& x) { double v = c.sym(6); q.table.push_back(v); f(x.begin()) = v; }); q.what = "table " + pbt::vec(q.table); gm.addFactor(gm.addFunction(f), q.vars.begin(), q.vars.end()); }
      put(q); }
   if (wantHard) for (size_t k = 0, e = c.range(1, 3); k < e; ++k) {
      Fac q; q.hard = true; q.transfer = false; m.hard++; double bad = sign * c.range(1, 9); size_t kind = c.upTo(4);
      if (kind == 0 && n >= 2) { q.vars = c.subset(n, 2); std::sort(q.vars.begin(), q.vars.end()); Vec s = shapeOfV(q.vars); std::vector<double> ord; for (size_t i = 0; i < std::max(s[0], s[1]); ++i) ord.push_back(c.range(0, 3)); FOrder f(s[0], s[1], ord, 0, bad); forAll(s, [&](const Vec& x) { bool ok = ord[x[0]] <= ord[x[1]]; q.ok.push_back(ok); q.table.push_back(ok ? 0 : bad); }); q.what = "label order " + pbt::vec(ord); gm.addFactor(gm.addFunction(f), q.vars.begin(), q.vars.end()); }
      else if (kind == 1) { q.vars = c.subset(n, c.range(1, n)); std::sort(q.vars.begin(), q.vars.end()); Vec s = shapeOfV(q.vars); size_t lim = c.range(1, 2); FNum f(s.begin(), s.end(), lim, 0, bad); forAll(s, [&](const Vec& x) { bool ok = std::set<size_t>(x.begin(), x.end()).size() <= lim; q.ok.push_back(ok); q.table.push_back(ok ? 0 : bad); }); q.what = pbt::str("at most ", lim, " labels"); gm.addFactor(gm.addFunction(f), q.vars.begin(), q.vars.end()); }
      else { q.vars = c.subset(n, c.range(1, n)); std::sort(q.vars.begin(), q.vars.end()); Vec s = shapeOfV(q.vars); std::vector<LC> lcs; struct Ref { std::vector<std::vector<std::pair<size_t, size_t> > > p; std::vector<int> op; DVec co; double bound; int rel; }; std::vector<Ref> refs; std::ostringstream w;
         for (size_t r = 0, nr = c.range(1, 2); r < nr; ++r) { Ref R; LC lc; for (size_t t = 0, nt = c.range(1, 3); t < nt; ++t) { std::vector<std::pair<size_t, size_t> > ps; int op = c.upTo(2); for (size_t a = 0, na = c.pick({1, 2, 1, 2, 3}); a < na; ++a) { size_t v = c.upTo(q.vars.size() - 1); std::pair<size_t, size_t> pr(v, c.upTo(s[v] - 1)); if (std::find(ps.begin(), ps.end(), pr) == ps.end()) ps.push_back(pr); }
               double co = c.sym(3); if (co == 0) co = 1; R.p.push_back(ps); R.op.push_back(op); R.co.push_back(co); lc.add(IV(ps.begin(), ps.end(), op == 0 ? IV::And : op == 1 ? IV::Or : IV::Not), co); w << co << "*" << "aon"[op]; for (auto& pr : ps) w << "(" << pr.first << "=" << pr.second << ")"; w << " "; }
            R.rel = c.pick({0, 2, 0, 2, 1}); auto val = [&](const Ref& Q, const Vec& x) { double t = 0; for (size_t i = 0; i < Q.p.size(); ++i) { size_t h = 0; for (auto& pr : Q.p[i]) h += x[pr.first] == pr.second; bool on = Q.op[i] == 0 ? h == Q.p[i].size() : Q.op[i] == 1 ? h > 0 : h == 0; if (on) t += Q.co[i]; } return t; };
            Vec x; for (size_t q2 : s) x.push_back(c.upTo(q2 - 1)); R.bound = val(R, x); if (c.flip(0.15)) R.bound += c.sym(1); lc.setBound(R.bound); lc.setConstraintOperator(R.rel == 0 ? LC::LinearConstraintOperatorType::LessEqual : R.rel == 1 ? LC::LinearConstraintOperatorType::Equal : LC::LinearConstraintOperatorType::GreaterEqual); w << (R.rel == 0 ? "<= " : R.rel == 1 ? "== " : ">= ") << R.bound << "; "; refs.push_back(R); lcs.push_back(lc);
            if (r + 1 == nr) forAll(s, [&](const Vec& y) { bool ok = true; for (auto& Q : refs) { double t = val(Q, y); ok = ok && (Q.rel == 0 ? t <= Q.bound : Q.rel == 1 ? t == Q.bound : t >= Q.bound); } q.ok.push_back(ok); q.table.push_back(ok ? 0 : bad); }); }
         FLin f(s.begin(), s.end(), lcs, 0, bad); q.what = "linear " + w.str(); gm.addFactor(gm.addFunction(f), q.vars.begin(), q.vars.end()); }
      put(q); }
   if (wantSoft) for (size_t k = 0, e = c.range(1, 2); k < e; ++k) {
      Fac q; q.hard = false; q.transfer = true; m.transfer++; q.vars = c.subset(n, c.range(1, n)); std::sort(q.vars.begin(), q.vars.end()); Vec s = shapeOfV(q.vars); size_t mx = *std::max_element(s.begin(), s.end()); bool eq = std::set<size_t>(s.begin(), s.end()).size() == 1 && c.flip();
      if (c.flip()) { if (c.flip()) { std::vector<double> co; for (size_t l = 0; l < mx; ++l) co.push_back(c.flip(0.3) ? 0 : c.sym(5)); FCost f(s.begin(), s.end(), co.begin(), co.end()); if (eq) f = FCost(s.size(), mx, co.begin(), co.end()); forAll(s, [&](const Vec& x) { std::set<size_t> u(x.begin(), x.end()); double t = 0; for (size_t l : u) t += co[l]; q.table.push_back(t); }); q.what = "label costs " + pbt::vec(co); gm.addFactor(gm.addFunction(f), q.vars.begin(), q.vars.end()); }
         else { size_t l = c.upTo(mx - 1); double co = c.sym(5); FCost f(s.begin(), s.end(), l, co); if (eq) f = FCost(s.size(), mx, l, co); forAll(s, [&](const Vec& x) { q.table.push_back(std::find(x.begin(), x.end(), l) != x.end() ? co : 0); }); q.what = pbt::str("cost ", co, " of label ", l); gm.addFactor(gm.addFunction(f), q.vars.begin(), q.vars.end()); } }
      else { bool share = c.flip(); std::vector<double> co; size_t nc = 0; if (share) nc = mx; else for (size_t z : s) nc += z; for (size_t i = 0; i < nc; ++i) co.push_back(c.sym(4)); double la = sign * c.upTo(3), bo = c.sym(5); FSum f(s.begin(), s.end(), co.begin(), co.end(), share, la, bo); if (eq) f = FSum(s.size(), mx, co.begin(), co.end(), share, la, bo);
         forAll(s, [&](const Vec& x) { double t = -bo; size_t off = 0; for (size_t i = 0; i < s.size(); ++i) { t += co[(share ? 0 : off) + x[i]]; off += s[i]; } q.table.push_back(la * std::fabs(t)); }); q.what = pbt::str(la, " * |", pbt::vec(co), share ? " shared" : "", " - ", bo, "|"); gm.addFactor(gm.addFunction(f), q.vars.begin(), q.vars.end()); }
      put(q); }
   return m; }
template<class P> void randomParameter(pbt::Ctx& c, P& p) {
   p.useSoftConstraints_ = c.flip(0.15); p.useFunctionTransfer_ = c.flip(0.6); p.mergeParallelFactors_ = c.flip(0.5); p.nameConstraints_ = c.flip(0.3); p.relaxation_ = c.pick({P::LocalPolytope, P::LoosePolytope, P::TightPolytope});
   p.maxNumIterations_ = 0; p.maxNumConstraintsPerIter_ = c.pick({0, 0, 1, 2, 5}); p.challengeHeuristic_ = c.flip() ? P::Random : P::Weighted; }
template<class P> std::string show(const P& p) { return pbt::str("soft ", p.useSoftConstraints_, " transfer ", p.useFunctionTransfer_, " merge ", p.mergeParallelFactors_, " relaxation ", (int)p.relaxation_, " iterations ", p.maxNumIterations_, " per iteration ", p.maxNumConstraintsPerIter_, " heuristic ", (int)p.challengeHeuristic_, " integer ", p.integerConstraintNodeVar_, p.integerConstraintFactorVar_); }
// an inference run; false when the solver reports no solution
template<class I> bool run(pbt::Ctx& c, I& inf, size_t visitor = 9) {
   if (visitor == 9) visitor = c.upTo(5); opengm::InferenceTermination t;
   if (visitor < 4) t = inf.infer(); else { typename I::TimingVisitorType v(1, 0, false, true, std::numeric_limits<double>::infinity(), -1.0); t = inf.infer(v); }
   CHECK(!inf.wrong, "the objective has one coefficient per variable"); CHECK(!inf.sawUnbounded, "the program handed to the solver is unbounded"); CHECK(t == opengm::NORMAL || t == opengm::UNKNOWN, "termination"); return t == opengm::NORMAL; }
template<class ACC> struct Check {
   typedef Inf<GM, ACC> I; typedef typename I::Parameter P; static bool maxi() { return opengm::meta::Compare<ACC, opengm::Maximizer>::value; } static double sign() { return maxi() ? -1 : 1; }
   static bool best(const Mod& m, bool soft, double& v) { bool any = false; forAll(m.labels, [&](const Vec& x) { if (!soft && !m.feasible(x)) return; double e = m.energy(x, soft); if (!any || sign() * e < sign() * v) v = e; any = true; }); return any; }
   // every labeling is an integral point of the program exactly when it satisfies the constraints, with its energy as best objective
   static void points(pbt::Ctx& c) {
      GM gm; Mod m = build(c, gm, sign(), c.flip(0.6), c.flip(0.6)); P p; randomParameter(c, p); p.integerConstraintNodeVar_ = c.flip(0.3); p.integerConstraintFactorVar_ = c.flip(0.3); c.note(show(p)); bool soft = p.useSoftConstraints_; bool yes = false, no = false;
      size_t visitor = c.upTo(5);
      forAll(m.labels, [&](const Vec& x) { I inf(gm, p); for (size_t i = 0; i < x.size(); ++i) for (size_t l = 0; l < m.labels[i]; ++l) inf.pins.push_back(l == x[i]); bool ok = run(c, inf, visitor); bool want = soft || m.feasible(x); (want ? yes : no) = true;
         CHECK_EQ(ok, want, "labeling " << pbt::vec(x) << (want ? " satisfies the constraints but is cut off" : " violates the constraints but is a solution"));
         if (ok) { CHECK_NEAR(inf.bound(), m.energy(x, soft), 1e-6, "objective at the labeling " << pbt::vec(x)); std::vector<size_t> a; CHECK(inf.arg(a) == opengm::NORMAL, "arg"); CHECK(a == x, "arg " << pbt::vec(a) << " at " << pbt::vec(x)); CHECK_NEAR(inf.value(), gm.evaluate(x.begin()), 1e-9, "value()"); } });
      c.labelIf(yes && no && !soft, "feasible and infeasible"); c.labelIf(m.transfer && p.useFunctionTransfer_, "transferred"); c.labelIf(m.parallel && p.mergeParallelFactors_, "merged"); c.nontrivialIf((m.hard || m.transfer || m.f.size() > 2) && prodOf(m.labels) > 1); }
   static void integer(pbt::Ctx& c) {
      GM gm; Mod m = build(c, gm, sign(), c.flip(0.6), c.flip(0.5)); P p; randomParameter(c, p); p.integerConstraintNodeVar_ = true; p.integerConstraintFactorVar_ = c.flip(0.3); c.note(show(p)); bool soft = p.useSoftConstraints_; double b = 0; bool any = best(m, soft, b);
      I inf(gm, p); std::vector<size_t> a; CHECK(inf.arg(a) == opengm::UNKNOWN && a == std::vector<size_t>(m.labels.size(), 0), "arg before inference"); CHECK_EQ(inf.bound(), ACC::template ineutral<double>(), "bound before inference"); CHECK(&inf.graphicalModel() == &gm, "model");
      size_t before = inf.rows.size(); bool ok = run(c, inf); CHECK_EQ(ok, any, "a solution is found exactly when one exists");
      if (ok) { inf.arg(a); CHECK(soft || m.feasible(a), "the labeling " << pbt::vec(a) << " violates a constraint"); CHECK_NEAR(m.energy(a, soft), b, 1e-6, "energy of the labeling " << pbt::vec(a)); CHECK_NEAR(inf.bound(), b, 1e-6, "bound"); CHECK_NEAR(inf.value(), gm.evaluate(a.begin()), 1e-9, "value()"); }
      if (p.maxNumConstraintsPerIter_) CHECK(inf.maxBatch <= p.maxNumConstraintsPerIter_, "added " << inf.maxBatch << " constraints in one iteration"); if (p.relaxation_ == P::TightPolytope) CHECK_EQ(inf.solves, (size_t)1, "the tight relaxation is solved once");
      c.labelIf(inf.rows.size() > before, "cuts added"); c.labelIf(!any, "infeasible"); c.nontrivialIf((m.hard || m.transfer || m.f.size() > 2) && prodOf(m.labels) > 1); }
   // all ways to reach a relaxation give its one value, a bound on the optimum; the limit of iterations bounds the number of solver calls
   static void relaxed(pbt::Ctx& c) {
      bool tree = c.flip(0.3); GM gm; Mod m = build(c, gm, sign(), !tree && c.flip(0.6), !tree && c.flip(0.5), tree); P p; randomParameter(c, p); p.relaxation_ = P::TightPolytope; bool soft = p.useSoftConstraints_; double b = 0; bool any = best(m, soft, b); P q(p); randomParameter(c, q); q.useSoftConstraints_ = soft; q.useFunctionTransfer_ = p.useFunctionTransfer_; q.mergeParallelFactors_ = p.mergeParallelFactors_;
      c.note(show(p)); c.note(show(q)); I t(gm, p), r(gm, q); bool okT = run(c, t), okR = run(c, r); CHECK_EQ(okT, okR, "both relaxations have a solution or none");
      CHECK(!any || okT, "the relaxation of a model with a feasible labeling has a solution");
      if (okT) { CHECK_NEAR(t.bound(), r.bound(), 1e-5, "value of the relaxation"); if (any) CHECK(sign() * t.bound() <= sign() * b + 1e-6, "bound " << t.bound() << " beyond the optimum " << b); if (tree) { c.label("tree"); CHECK_NEAR(t.bound(), b, 1e-6, "bound on a tree"); } }
      if (q.maxNumConstraintsPerIter_) CHECK(r.maxBatch <= q.maxNumConstraintsPerIter_, "added " << r.maxBatch << " constraints in one iteration");
      size_t lim = c.range(1, 3); q.maxNumIterations_ = lim; I l(gm, q); if (run(c, l)) { CHECK(l.solves <= lim, "solved " << l.solves << " times"); if (any) CHECK(sign() * l.bound() <= sign() * b + 1e-6, "bound " << l.bound() << " after " << lim << " iterations beyond the optimum " << b); if (okR) CHECK(sign() * l.bound() <= sign() * r.bound() + 1e-5, "bound after " << lim << " iterations better than the converged one"); }
      c.labelIf(okT && any && std::fabs(t.bound() - b) > 1e-3, "gap"); c.nontrivialIf((m.hard || m.transfer || m.f.size() > 2) && prodOf(m.labels) > 1); }
};
}
