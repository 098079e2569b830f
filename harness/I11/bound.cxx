#include "transport.hxx"
#include <opengm/inference/auxiliary/primal_lpbound.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
using namespace gen;
using pbt::Ctx;
// histories of variable updates and queries; every answer is recomputed from the current marginals
template<class ACC> void test(Ctx& c, bool mx) {
   typedef SumGMs::All GM; typedef opengm::PrimalLPBound<GM, ACC> P; typedef TransportSolver::MatrixWrapper<double> M;
   Opt o; o.maxOrder = 2; o.order0 = false; o.maxVars = 5; o.maxLabels = 4; o.minFactors = 2; o.maxFactors = 8; o.minLabels = c.flip(0.7) ? 2 : 1; o.minVars = 2; Model m = genModel(c, o); c.note(m.str()); std::vector<int> unary(m.n(), -1); bool dup = false; for (size_t f = 0; f < m.factors.size(); ++f) if (m.factors[f].vars.size() == 1) { dup = dup || unary[m.factors[f].vars[0]] >= 0; unary[m.factors[f].vars[0]] = f; }
   auto gm = buildAll<GM>(m); bool thrown = false; std::unique_ptr<P> p; try { p.reset(new P(gm)); } catch (std::runtime_error&) { thrown = true; } CHECK_EQ(thrown, dup, "duplicate unary factors are rejected"); if (dup) { c.label("duplicate"); return; }
   std::vector<std::vector<long> > mu(m.n()); double big = 1; forAll(m.labels, [&](const Vec& x) { for (size_t f = 0; f < m.factors.size(); ++f) big = std::max(big, std::fabs(m.factorValue(f, x))); }); auto mass = [&](size_t v) { long s = 0; for (long k : mu[v]) s += k; return s; };
   auto at = [&](size_t f, size_t a, size_t b) { Vec x(m.n(), 0); x[m.factors[f].vars[0]] = a; if (m.factors[f].vars.size() > 1) x[m.factors[f].vars[1]] = b; return m.factorValue(f, x); };
   auto pair = [&](size_t f) { size_t u = m.factors[f].vars[0], w = m.factors[f].vars[1]; long su = mass(u), sw = mass(w); auto a = mu[u], b = mu[w]; for (long& k : a) k *= sw; for (long& k : b) k *= su; std::vector<std::vector<double> > q(a.size(), std::vector<double>(b.size())); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) q[i][j] = (mx ? -1 : 1) * at(f, i, j); double v = ref::minCost(a, b, q) / ((double)su * sw); return mx ? -v : v; };
   auto single = [&](size_t v) { double r = 0; if (unary[v] >= 0) for (size_t k = 0; k < mu[v].size(); ++k) r += at(unary[v], k, 0) * mu[v][k] / mass(v); return r; };
   auto set = [&](size_t v) { mu[v] = ref::marginal(c, m.labels[v], c.flip(0.3) ? 3 : c.upTo(2)); if (c.flip(0.3)) { std::fill(mu[v].begin(), mu[v].end(), 0); mu[v][c.upTo(m.labels[v] - 1)] = 1; } DVec d; for (long k : mu[v]) d.push_back((double)k / mass(v)); p->setVariable(v, d.begin()); c.note(pbt::str("set ", v, pbt::vec(mu[v]), "\n")); };
   for (size_t v = 0; v < m.n(); ++v) set(v); std::vector<size_t> pw; for (size_t f = 0; f < m.factors.size(); ++f) if (m.factors[f].vars.size() == 2) pw.push_back(f); double tol = 1e-8 * big * (1 + m.factors.size()); size_t steps = 1 + (size_t)c.range(0, 14), asked = 0;
   for (size_t k = 0; k < steps; ++k) switch (c.upTo(6)) {
      case 0: set(c.upTo(m.n() - 1)); break;
      case 1: { double want = 0; for (size_t f : pw) want += pair(f); for (size_t v = 0; v < m.n(); ++v) want += single(v); c.note("total\n"); CHECK_NEAR((double)p->getTotalValue(), want, tol, "total value"); bool integral = true; Vec x(m.n()); for (size_t v = 0; v < m.n(); ++v) { size_t nz = 0; for (size_t l = 0; l < mu[v].size(); ++l) if (mu[v][l]) { ++nz; x[v] = l; } integral = integral && nz == 1; } if (integral) { CHECK_NEAR(want, m.value(x, false), tol, "energy of an integral point"); c.label("integral"); } ++asked; break; }
      case 2: { size_t v = c.upTo(m.n() - 1); c.note(pbt::str("variable ", v, "\n")); CHECK_NEAR((double)p->getVariableValue(v), single(v), tol, "value of variable " << v); DVec d(m.labels[v]); p->getVariable(v, d.begin()); for (size_t l = 0; l < d.size(); ++l) CHECK_EQ(d[l], (double)mu[v][l] / mass(v), "marginal of variable " << v); break; }
      case 3: if (pw.size()) { size_t f = pw[c.upTo(pw.size() - 1)]; c.note(pbt::str("factor value ", f, "\n")); CHECK_NEAR((double)p->getFactorValue(f), pair(f), tol, "value of factor " << f); ++asked; } break;
      case 4: case 5: if (pw.size()) { size_t f = pw[c.upTo(pw.size() - 1)], u = m.factors[f].vars[0], w = m.factors[f].vars[1]; c.note(pbt::str("factor variable ", f, "\n")); M plan(m.labels[u], m.labels[w], 7.0); double v = p->getFactorVariable(f, plan), sum = 0; CHECK_NEAR(v, pair(f), tol, "value of the plan of factor " << f);
            for (size_t i = 0; i < m.labels[u]; ++i) { double t = 0; for (size_t j = 0; j < m.labels[w]; ++j) { t += plan(i, j); sum += plan(i, j) * at(f, i, j); CHECK(plan(i, j) > -1e-12, "negative entry"); } CHECK_NEAR(t, (double)mu[u][i] / mass(u), 1e-9, "row of the plan of factor " << f); } for (size_t j = 0; j < m.labels[w]; ++j) { double t = 0; for (size_t i = 0; i < m.labels[u]; ++i) t += plan(i, j); CHECK_NEAR(t, (double)mu[w][j] / mass(w), 1e-9, "column of the plan of factor " << f); } CHECK_NEAR(sum, v, tol, "cost of the plan of factor " << f); ++asked; } break;
      default: if (c.flip(0.3)) { c.note("reset\n"); p->ResetBuffer(); } else if (m.factors.size()) { size_t f = c.upTo(m.factors.size() - 1); if (m.factors[f].vars.size() == 1) { bool t = false; try { p->getFactorValue(f); } catch (std::runtime_error&) { t = true; } CHECK(t, "the value of a unary factor is not a transportation problem"); c.label("rejected"); } }
   }
   c.label(mx ? "maximize" : "minimize"); c.nontrivialIf(pw.size() && asked > 1);
}
PROP(primal_bound, 12000, 300000) { if (c.flip(0.3)) test<opengm::Maximizer>(c, true); else test<opengm::Minimizer>(c, false); }
