#pragma once
#include "gen_model.hxx"
#include <limits>
// exact reference: minimum cost of moving integer supplies to integer demands of equal mass (successive shortest paths)
namespace ref {
inline double minCost(const std::vector<long>& a, const std::vector<long>& b, const std::vector<std::vector<double> >& cost) {
   size_t n = a.size(), m = b.size(), N = n + m + 2, S = n + m, T = S + 1; struct A { size_t to; long cap; double c; size_t rev; }; std::vector<std::vector<A> > g(N);
   auto add = [&](size_t u, size_t v, long cap, double c) { g[u].push_back(A{v, cap, c, g[v].size()}); g[v].push_back(A{u, 0, -c, g[u].size() - 1}); };
   for (size_t i = 0; i < n; ++i) add(S, i, a[i], 0); for (size_t j = 0; j < m; ++j) add(n + j, T, b[j], 0); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) add(i, n + j, std::numeric_limits<long>::max() / 4, cost[i][j]);
   double total = 0;
   for (;;) { std::vector<double> d(N, HUGE_VAL); std::vector<std::pair<size_t, size_t> > p(N); d[S] = 0; for (bool ch = true; ch;) { ch = false; for (size_t u = 0; u < N; ++u) if (d[u] < HUGE_VAL) for (size_t k = 0; k < g[u].size(); ++k) { A& e = g[u][k]; if (e.cap > 0 && d[u] + e.c < d[e.to] - 1e-11) { d[e.to] = d[u] + e.c; p[e.to] = std::make_pair(u, k); ch = true; } } }
      if (!(d[T] < HUGE_VAL)) return total; long f = std::numeric_limits<long>::max(); for (size_t v = T; v != S; v = p[v].first) f = std::min(f, g[p[v].first][p[v].second].cap); for (size_t v = T; v != S; v = p[v].first) { A& e = g[p[v].first][p[v].second]; e.cap -= f; g[v][e.rev].cap += f; } total += f * d[T]; }
}
inline std::vector<long> marginal(pbt::Ctx& c, size_t n, int style) { std::vector<long> r(n); for (;;) { long s = 0; for (auto& x : r) { x = style == 0 ? c.range(0, 3) : style == 1 ? c.range(1, 1000) : style == 2 ? 1 : c.flip(0.6) ? 0 : c.range(1, 9); s += x; } if (s) return r; r[c.upTo(n - 1)] = 1; return r; } }
}
