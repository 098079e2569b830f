#pragma once
#include "solve.hxx"
using namespace gen;
using pbt::Ctx;
typedef std::vector<size_t> LV;

inline Vec genStart(Ctx& c, const Model& m) { Vec s; for (size_t l : m.labels) s.push_back(c.upTo(l - 1)); return s; }
inline bool better(double a, double b, bool mx) { return mx ? a > b : a < b; }
inline std::vector<std::vector<bool> > adjacency(const Model& m) { std::vector<std::vector<bool> > a(m.n(), std::vector<bool>(m.n())); for (auto& f : m.factors) for (size_t v : f.vars) for (size_t w : f.vars) a[v][w] = true; return a; }
inline bool connectedSet(const std::vector<std::vector<bool> >& adj, size_t mask) { size_t seen = mask & -mask, n = adj.size(); for (bool grown = true; grown;) { grown = false; for (size_t v = 0; v < n; ++v) if ((seen >> v) & 1) for (size_t w = 0; w < n; ++w) if (((mask & ~seen) >> w) & 1 && adj[v][w]) { seen |= size_t(1) << w; grown = true; } } return seen == mask; }
// no relabeling of the variables of the mask improves
// (a product that starts at zero: see the known finding "zero-product")
inline void noBetter(Ctx& c, const Model& m, const Vec& x, const Vec& start, size_t mask, bool mult, bool mx, const char* what, const std::vector<std::vector<bool> >* adj = 0) {
   double v = m.value(x, mult); Vec idx, sh; for (size_t i = 0; i < m.n(); ++i) if ((mask >> i) & 1) { idx.push_back(i); sh.push_back(m.labels[i]); }
   Vec y(x); forAll(sh, [&](const Vec& l) { for (size_t k = 0; k < idx.size(); ++k) y[idx[k]] = l[k]; double w = m.value(y, mult); if (adj) { size_t d = 0; for (size_t i = 0; i < m.n(); ++i) if (x[i] != y[i]) d |= size_t(1) << i; if (!d || !connectedSet(*adj, d)) return; } if (mult && mx && m.product(start) == 0) { CHECK_KNOWN("zero-product", !better(w, v, mx), what << ": " << pbt::vec(x) << " (" << v << ") is improved by changing to " << pbt::vec(y) << " (" << w << ")"); return; } CHECK(!better(w, v, mx), what << ": " << pbt::vec(x) << " (" << v << ") is improved by changing to " << pbt::vec(y) << " (" << w << ")"); });
}
inline void allConnected(Ctx& c, const Model& m, const Vec& x, const Vec& start, size_t maxSize, bool mult, bool mx, const char* what) { auto adj = adjacency(m); for (size_t mask = 1; mask < (size_t(1) << m.n()); ++mask) if ((size_t)__builtin_popcountll(mask) <= maxSize && connectedSet(adj, mask)) noBetter(c, m, x, start, mask, mult, mx, what, &adj); }
template<class S> Vec finish(Ctx& c, S& s, const Model& m, const Vec& start, bool mult, bool mx, const char* what) {
   CHECK(s.infer() == opengm::NORMAL, what << ": terminates normally"); Vec x = argOf(c, s, m, what); double v = m.value(x, mult), v0 = m.value(start, mult);
   CHECK(notWorse(v, v0, mx), what << ": the result " << pbt::vec(x) << " (" << v << ") is worse than the start " << pbt::vec(start) << " (" << v0 << ")"); CHECK_EQ((double)s.value(), v, what << ": reported value"); c.labelIf(better(v, v0, mx), "improved"); return x;
}
// drives f(GM tag, ACC tag, mult, mx)
template<class F> void senses(Ctx& c, F f) { switch (c.upTo(3)) { case 0: f(SumGMs(), opengm::Minimizer(), false, false); break; case 1: f(SumGMs(), opengm::Maximizer(), false, true); break; case 2: f(MulGMs(), opengm::Minimizer(), true, false); break; default: f(MulGMs(), opengm::Maximizer(), true, true); } }
inline Opt localOpts(Ctx& c, bool mult, bool mx) { Opt o; o.maxVars = 7; o.maxLabels = 4; o.maxFactors = 12; o.maxConfigs = 500; o.maxOrder = c.pick({2, 3, 4}); o.positive = mult; o.zeroValue = mult && mx; o.binary = c.flip(0.4); o.dyadic = c.flip(0.3); if (c.flip(0.2)) o.amp = 1; return o; }
