#include "transport.hxx"
#include <sstream>
#include <opengm/opengm.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
#include <opengm/inference/auxiliary/transportationsolver.hxx>
using pbt::Ctx;
template<class ACC> void test(Ctx& c, bool mx) {
   typedef TransportSolver::MatrixWrapper<double> M; typedef TransportSolver::TransportationSolver<ACC, M> S;
   bool shared = c.flip(); M cost; std::unique_ptr<S> s; size_t rounds = 1 + c.upTo(2), top = c.flip(0.2) ? 9 : 5, n = 0, m = 0; c.label(mx ? "maximize" : "minimize");
   for (size_t r = 0; r < rounds; ++r) {
      if (!r || c.flip()) { n = 1 + (size_t)c.range(c.flip(0.8), top - 1); m = 1 + (size_t)c.range(c.flip(0.8), top - 1); cost = M(n, m); int cs = c.upTo(3); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) cost(i, j) = cs == 0 ? c.sym(2) : cs == 1 ? c.sym(1000) / 16.0 : cs == 2 ? (double)((i == j) ? 0 : 1) : std::fabs((double)i - (double)j); if (!s) s.reset(shared ? new S() : new S(n, m, cost)); if (r || shared) s->Init(n, m, cost); }
      int st = c.upTo(3); auto a = ref::marginal(c, n, st), b = ref::marginal(c, m, c.flip(0.7) ? st : c.upTo(3)); long sa = 0, sb = 0; for (long x : a) sa += x; for (long x : b) sb += x;
      std::ostringstream o; o << "costs (rows y, columns x)"; for (size_t j = 0; j < m; ++j) { o << " ["; for (size_t i = 0; i < n; ++i) o << (i ? " " : "") << cost(i, j); o << "]"; } o << " supplies " << pbt::vec(a) << " demands " << pbt::vec(b) << "\n"; c.note(o.str());
      std::vector<long> ia(a), ib(b); for (long& x : ia) x *= sb; for (long& x : ib) x *= sa; std::vector<std::vector<double> > q(n, std::vector<double>(m)); double big = 1; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) { q[i][j] = mx ? -cost(i, j) : cost(i, j); big = std::max(big, std::fabs(q[i][j])); }
      double want = ref::minCost(ia, ib, q) / ((double)sa * sb); if (mx) want = -want; bool scaled = c.flip(0.3); std::vector<double> da(a.begin(), a.end()), db(b.begin(), b.end()); if (!scaled) { for (double& x : da) x /= sa; for (double& x : db) x /= sb; }
      double v = s->Solve(da.begin(), db.begin()); CHECK_NEAR(v, want, 1e-9 * big, "value of the plan" << (r ? " of a later problem" : ""));
      M plan(n, m, 7.0); double w = s->GetSolution(&plan), sum = 0; CHECK_NEAR(w, v, 1e-12 * big, "GetSolution returns the value"); CHECK_EQ((double)s->GetObjectiveValue(), v, "GetObjectiveValue");
      for (size_t i = 0; i < n; ++i) { double t = 0; for (size_t j = 0; j < m; ++j) { CHECK(plan(i, j) >= -1e-12, "negative entry " << plan(i, j)); t += plan(i, j); sum += plan(i, j) * cost(i, j); } CHECK_NEAR(t, (double)a[i] / sa, 1e-9, "row " << i << " of the plan"); }
      for (size_t j = 0; j < m; ++j) { double t = 0; for (size_t i = 0; i < n; ++i) t += plan(i, j); CHECK_NEAR(t, (double)b[j] / sb, 1e-9, "column " << j << " of the plan"); } CHECK_NEAR(sum, v, 1e-9 * big, "cost of the plan");
      size_t na = 0, nb = 0; for (long x : a) na += x > 0; for (long x : b) nb += x > 0; c.nontrivialIf(na > 1 && nb > 1); c.labelIf(r > 0, "again"); c.labelIf(na < n || nb < m, "sparse");
   }
}
PROP(transportation, 20000, 800000) { if (c.flip(0.3)) test<opengm::Maximizer>(c, true); else test<opengm::Minimizer>(c, false); }
PROP(empty_mass, 100, 1000) { typedef TransportSolver::MatrixWrapper<double> M; size_t n = 1 + c.upTo(3), m = 1 + c.upTo(3); M cost(n, m, 1.0); TransportSolver::TransportationSolver<opengm::Minimizer, M> s; s.Init(n, m, cost); std::vector<double> a(n, 0.0), b(m, 1.0 / m); c.note(pbt::str(n, "x", m)); c.nontrivial(); bool t = false; try { s.Solve(a.begin(), b.begin()); } catch (std::runtime_error&) { t = true; } CHECK(t, "a problem without mass is rejected"); }
PROP(transpose, 300, 3000) { typedef TransportSolver::MatrixWrapper<int> M; size_t n = 1 + c.upTo(4), m = 1 + c.upTo(4); M a(n, m), b; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) a(i, j) = c.sym(9); TransportSolver::transpose(a, b); c.note(pbt::str(n, "x", m)); c.nontrivialIf(n > 1 && m > 1); CHECK(b.xsize() == m && b.ysize() == n, "size " << b.xsize() << "x" << b.ysize()); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) CHECK_EQ(b(j, i), a(i, j), "entry"); }
