// Models as the chain based dual solvers want them: one unary factor for every variable and factors over pairs.
#pragma once
#include "solve.hxx"
namespace gen {
enum Shape { CHAIN, TREE, GRID, ANY };
struct Pairwise { Model m; bool tree = true; size_t edges = 0; };
inline Pairwise genPairwise(pbt::Ctx& c, Shape shape, bool mixedOrder, const Opt& o0 = Opt()) {
   Pairwise r; Opt o = o0; Model& m = r.m; size_t n, w = 1, h = 1; if (shape == GRID) { w = c.range(1, 4); h = c.range(1, w > 2 ? 2 : 3); n = w * h; } else n = c.small(1, 7);
   bool same = c.flip(); size_t l0 = c.range(1, 4); size_t conf = 1; for (size_t v = 0; v < n; ++v) { size_t l = same ? l0 : c.range(1, 4); if (conf * l > 1500) l = 1; conf *= l; m.labels.push_back(l); }
   std::vector<Vec> scopes; for (size_t v = 0; v < n; ++v) scopes.push_back(Vec(1, v)); std::vector<Vec> e;
   if (shape == CHAIN) { Vec p = c.flip() ? c.perm(n) : Vec(); for (size_t v = 0; v + 1 < n; ++v) { size_t a = p.empty() ? v : p[v], b = p.empty() ? v + 1 : p[v + 1]; e.push_back({std::min(a, b), std::max(a, b)}); } }
   else if (shape == TREE) { for (size_t v = 1; v < n; ++v) if (c.flip(0.85)) e.push_back({c.upTo(v - 1), v}); }
   else if (shape == GRID) { for (size_t y = 0; y < h; ++y) for (size_t x = 0; x < w; ++x) { if (x + 1 < w) e.push_back({y * w + x, y * w + x + 1}); if (y + 1 < h) e.push_back({y * w + x, (y + 1) * w + x}); } r.tree = h == 1 || w == 1; }
   else { double p = c.pick({0.3, 0.6, 1.0}); for (size_t a = 0; a < n; ++a) for (size_t b = a + 1; b < n; ++b) if (c.flip(p)) e.push_back({a, b}); Vec id(n); for (size_t v = 0; v < n; ++v) id[v] = v; for (auto& k : e) { if (id[k[0]] == id[k[1]]) r.tree = false; size_t from = id[k[1]], to = id[k[0]]; for (auto& i : id) if (i == from) i = to; } }
   r.edges = e.size(); if (mixedOrder && e.size()) { Vec p = c.perm(e.size()); std::vector<Vec> q; for (size_t i : p) q.push_back(e[i]); e = q; }
   scopes.insert(scopes.end(), e.begin(), e.end()); if (mixedOrder && c.flip()) { Vec p = c.perm(scopes.size()); std::vector<Vec> q; for (size_t i : p) q.push_back(scopes[i]); scopes = q; }
   for (auto& s : scopes) { Vec sh; for (size_t v : s) sh.push_back(m.labels[v]); Factor f; f.vars = s; f.f = m.funcs.size(); for (size_t k = 0; k < m.funcs.size() && c.flip(0.2); ++k) if (m.funcs[k].shape == sh) { f.f = k; break; } if (f.f == m.funcs.size()) m.funcs.push_back(genFunc(c, o, sh)); m.factors.push_back(f); }
   return r;
}
}
