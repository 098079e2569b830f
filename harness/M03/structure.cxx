#include "gen_model.hxx"
#include <queue>
using namespace gen;
typedef opengm::GraphicalModel<double, opengm::Adder, Types<double>::Constant> GM0;
struct GM : public GM0 { // expose the protected queries
   typedef opengm::FactorGraph<GM0, GM0::IndexType> Base;
   GM(const GM0::SpaceType& s) : GM0(s) {}
   using Base::shortestPath; using Base::twoHopConnected;
};
struct G { size_t n; std::vector<Vec> scopes; };
static std::string show(const G& g) { std::string s = "n=" + pbt::str(g.n) + " scopes:"; for (auto& x : g.scopes) s += pbt::vec(x); return s; }
static GM build(const G& g) {
   Vec l(g.n, 2); GM gm(GM0::SpaceType(l.begin(), l.end()));
   for (auto& s : g.scopes) { Vec sh(s.size(), 2); GM0::FunctionIdentifier id = gm.addFunction(Types<double>::Constant(sh.begin(), sh.end(), 1.0)); gm.addFactor(id, s.begin(), s.end()); }
   return gm;
}
struct UF { Vec p; UF(size_t n) : p(n) { for (size_t i = 0; i < n; ++i) p[i] = i; } size_t f(size_t x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; } bool u(size_t a, size_t b) { a = f(a); b = f(b); if (a == b) return false; p[a] = b; return true; } };
static bool refAcyclic(const G& g) { UF u(g.n + g.scopes.size()); for (size_t f = 0; f < g.scopes.size(); ++f) for (size_t v : g.scopes[f]) if (!u.u(v, g.n + f)) return false; return true; }
static std::set<std::set<size_t> > comps(const G& g) { UF u(g.n); for (auto& s : g.scopes) for (size_t v : s) u.u(s[0], v); std::map<size_t, std::set<size_t> > m; for (size_t v = 0; v < g.n; ++v) m[u.f(v)].insert(v); std::set<std::set<size_t> > r; for (auto& p : m) r.insert(p.second); return r; }
static std::vector<std::set<size_t> > nbrs(const G& g) { std::vector<std::set<size_t> > a(g.n); for (auto& s : g.scopes) for (size_t v : s) for (size_t w : s) if (v != w) a[v].insert(w); return a; }
static bool orderAtMost2(const G& g) { for (auto& s : g.scopes) if (s.size() > 2) return false; return true; }
static std::multiset<Vec> pairs(const G& g) { std::multiset<Vec> r; for (auto& s : g.scopes) if (s.size() == 2) r.insert(s); return r; }
static Vec mk(size_t a, size_t b) { return a < b ? Vec{a, b} : Vec{b, a}; }
// does this matrix arrange all variables so that the pairwise factors are exactly the grid edges
template<class M> static std::string matrixIsGrid(const G& g, const M& at, size_t H, size_t W) {
   if (H * W != g.n) return "size";
   std::set<size_t> seen; for (size_t i = 0; i < H; ++i) for (size_t j = 0; j < W; ++j) { size_t v = at(i, j); if (v >= g.n || !seen.insert(v).second) return "not a permutation of the variables"; }
   std::multiset<Vec> e; for (size_t i = 0; i < H; ++i) for (size_t j = 0; j < W; ++j) { if (i + 1 < H) e.insert(mk(at(i, j), at(i + 1, j))); if (j + 1 < W) e.insert(mk(at(i, j), at(i, j + 1))); }
   if (e != pairs(g)) return "edges differ";
   return "";
}
// independent grid recogniser: for every corner and both directions try to lay out the grid by distances
static bool refGrid(const G& g) {
   if (g.n == 0 || !orderAtMost2(g)) return false;
   std::multiset<Vec> p = pairs(g); std::set<Vec> ps(p.begin(), p.end()); if (ps.size() != p.size()) return g.n == 1 && p.empty();
   std::vector<std::set<size_t> > a = nbrs(g);
   if (comps(g).size() != 1) return false;
   for (size_t H = 1; H * H <= g.n; ++H) if (g.n % H == 0) {
      size_t W = g.n / H; if (p.size() != H * (W - 1) + W * (H - 1)) continue;
      for (size_t s = 0; s < g.n; ++s) {
         // fill by backtracking row-major
         std::vector<Vec> m(H, Vec(W)); std::vector<char> used(g.n, 0); size_t budget = 200000; 
         std::function<bool(size_t)> rec = [&](size_t k) -> bool {
            if (budget == 0) return false; --budget;
            if (k == g.n) return true;
            size_t i = k / W, j = k % W;
            auto ok = [&](size_t v) { if (used[v]) return false; if (i && !a[v].count(m[i - 1][j])) return false; if (j && !a[v].count(m[i][j - 1])) return false; return true; };
            if (k == 0) { m[0][0] = s; used[s] = 1; bool r = rec(1); used[s] = 0; return r; }
            const std::set<size_t>& cand = j ? a[m[i][j - 1]] : a[m[i - 1][j]];
            for (size_t v : cand) if (ok(v)) { m[i][j] = v; used[v] = 1; if (rec(k + 1)) return true; used[v] = 0; }
            return false;
         };
         if (rec(0)) return true;
      }
   }
   return false;
}
static bool refChain(const G& g) {
   if (g.n == 0 || !orderAtMost2(g)) return false;
   std::multiset<Vec> p = pairs(g); if (p.size() != g.n - 1) return false;
   std::vector<std::set<size_t> > a = nbrs(g); for (auto& x : a) if (x.size() > 2) return false;
   return comps(g).size() == 1;
}
static Vec bfs(const G& g, size_t s, const std::vector<char>& allowed) {
   std::vector<std::set<size_t> > a = nbrs(g); Vec d(g.n, (size_t)-1); std::queue<size_t> q; d[s] = 0; q.push(s);
   while (!q.empty()) { size_t v = q.front(); q.pop(); for (size_t w : a[v]) if (allowed[w] && d[w] == (size_t)-1) { d[w] = d[v] + 1; q.push(w); } }
   return d;
}
static void relabel(pbt::Ctx& c, G& g) {
   Vec p(g.n); for (size_t i = 0; i < g.n; ++i) p[i] = i;
   if (c.flip(0.8)) p = c.perm(g.n);
   for (auto& s : g.scopes) { for (auto& v : s) v = p[v]; std::sort(s.begin(), s.end()); }
   Vec q = c.perm(g.scopes.size()); std::vector<Vec> t; for (size_t i : q) t.push_back(g.scopes[i]); g.scopes = t;
}
static void decorate(pbt::Ctx& c, G& g) {
   if (c.flip(0.4)) for (size_t v = 0; v < g.n; ++v) if (c.flip(0.6)) g.scopes.push_back(Vec(1, v));
   if (c.flip(0.15)) g.scopes.push_back(Vec());
   if (c.flip(0.1) && g.n) g.scopes.push_back(Vec(1, c.upTo(g.n - 1)));
}
static G gridGraph(size_t H, size_t W) { G g; g.n = H * W; for (size_t i = 0; i < H; ++i) for (size_t j = 0; j < W; ++j) { if (i + 1 < H) g.scopes.push_back(Vec{i * W + j, (i + 1) * W + j}); if (j + 1 < W) g.scopes.push_back(Vec{i * W + j, i * W + j + 1}); } return g; }
static void checkAll(pbt::Ctx& c, const G& g) {
   c.note(show(g));
   const GM gm = build(g);
   size_t big = 0; for (auto& s : g.scopes) big += s.size() >= 2; c.nontrivialIf(g.n >= 3 && big >= 2);
   bool ac = refAcyclic(g); CHECK_EQ(gm.isAcyclic(), ac, "isAcyclic"); c.label(ac ? "acyclic" : "cyclic");
   std::set<std::set<size_t> > cs = comps(g);
   marray::Vector<size_t> rep; bool conn = gm.isConnected(rep);
   CHECK_EQ(conn, g.n > 0 && cs.size() == 1, "isConnected"); c.label(conn ? "connected" : "disconnected");
   if (g.n > 0) { CHECK_EQ((size_t)rep.size(), cs.size(), "number of representatives"); std::set<std::set<size_t> > hit; for (size_t i = 0; i < rep.size(); ++i) for (auto& x : cs) if (x.count(rep[i])) hit.insert(x); CHECK(hit == cs, "representatives do not cover the components"); }
   bool chain = refChain(g); marray::Vector<size_t> ids; bool gotChain = gm.isChain(ids);
   CHECK_EQ(gotChain, chain, "isChain"); c.labelIf(chain && g.n > 2, "chain");
   if (gotChain) CHECK(matrixIsGrid(g, [&](size_t, size_t j) { return ids[j]; }, 1, ids.size()).empty(), "isChain order is not the chain");
   bool grid = refGrid(g); marray::Matrix<size_t> gi; bool gotGrid = gm.isGrid(gi);
   c.labelIf(grid && !chain, "grid"); c.labelIf(!grid, "not-grid");
   CHECK_EQ(gotGrid, grid, "isGrid");
   if (gotGrid) { std::string e = matrixIsGrid(g, [&](size_t i, size_t j) { return gi(i, j); }, gi.shape(0), gi.shape(1)); CHECK(e.empty(), "isGrid layout wrong: " << e); }
   // distances
   if (g.n >= 2) for (int rep2 = 0; rep2 < 2; ++rep2) {
      size_t s = c.upTo(g.n - 1), t = c.upTo(g.n - 1);
      std::vector<char> al(g.n, 1); std::list<size_t> allowed;
      if (s != t) {
         if (c.flip()) { for (size_t v = 0; v < g.n; ++v) { al[v] = v == s || v == t || c.flip(0.6); } if ((size_t)std::count(al.begin(), al.end(), 1) == g.n && c.flip()) {} else {} Vec o = c.perm(g.n); for (size_t v : o) if (al[v]) allowed.push_back(v); }
         Vec d = bfs(g, s, al); std::list<size_t> path;
         bool r = gm.shortestPath(s, t, path, allowed);
         CHECK_EQ(r, d[t] != (size_t)-1, "shortestPath " << s << "->" << t << " reachability");
         if (r) {
            CHECK_EQ(path.size(), d[t] + 1, "shortestPath length " << s << "->" << t);
            std::vector<std::set<size_t> > a = nbrs(g); Vec p(path.begin(), path.end());
            CHECK(p.front() == s && p.back() == t, "path ends"); for (size_t i = 0; i + 1 < p.size(); ++i) CHECK(a[p[i]].count(p[i + 1]) && al[p[i + 1]], "path step");
         }
      }
   }
}
PROP(random_graphs, 40000, 250000) {
   G g; g.n = c.range(0, 8); long F = g.n ? c.range(0, 9) : c.range(0, 1);
   long mo = c.weighted({2, 5, 3, 1}) + 1;
   for (long i = 0; i < F; ++i) { Vec s = c.subset(g.n, c.range(c.flip(0.1) ? 0 : std::min<long>(1, g.n), std::min<long>(mo, g.n))); g.scopes.push_back(s); }
   checkAll(c, g);
}
PROP(trees_and_chains, 30000, 200000) {
   G g; g.n = c.range(1, 12); int kind = c.range(0, 3);
   if (kind == 0) for (size_t i = 1; i < g.n; ++i) g.scopes.push_back(mk(i - 1, i));
   else if (kind == 1) for (size_t i = 1; i < g.n; ++i) { if (!c.flip(0.1)) g.scopes.push_back(mk(c.upTo(i - 1), i)); }
   else if (kind == 2) { Vec in(1, 0); size_t nxt = 1; while (nxt < g.n) { size_t k = std::min<size_t>(c.range(1, 3), g.n - nxt); Vec s(1, c.pick(in)); for (size_t i = 0; i < k; ++i) s.push_back(nxt++); for (size_t i = 1; i < s.size(); ++i) in.push_back(s[i]); std::sort(s.begin(), s.end()); g.scopes.push_back(s); } }
   else { for (size_t i = 1; i < g.n; ++i) g.scopes.push_back(mk(i - 1, i)); if (g.n > 2) g.scopes.push_back(mk(0, g.n - 1)); }
   if (c.flip(0.3)) { // one mutation: extra, duplicate or missing factor
      int m = c.range(0, 2);
      if (m == 0 && g.n >= 2) g.scopes.push_back(c.subset(g.n, 2));
      else if (m == 1 && !g.scopes.empty()) g.scopes.push_back(c.pick(g.scopes));
      else if (!g.scopes.empty()) g.scopes.erase(g.scopes.begin() + c.upTo(g.scopes.size() - 1));
      c.label("mutated");
   }
   decorate(c, g); relabel(c, g); checkAll(c, g);
}
PROP(grids, 15000, 120000) {
   size_t H = c.range(1, 5), W = c.range(1, 5); G g = gridGraph(H, W);
   decorate(c, g); relabel(c, g); c.label("true-grid"); checkAll(c, g);
}
PROP(perturbed_grids, 20000, 120000) {
   size_t H = c.range(2, 4), W = c.range(2, 5); G g = gridGraph(H, W);
   // rewire: swap endpoints of two edges (keeps all degrees) or move / add / delete one edge
   int m = c.range(0, 3); size_t E = g.scopes.size();
   if (m == 0) { long k = c.range(1, 3); for (long q = 0; q < k; ++q) { size_t a = c.upTo(E - 1), b = c.upTo(E - 1); Vec A = g.scopes[a], B = g.scopes[b]; if (a == b) continue; bool f = c.flip(); Vec x = f ? Vec{A[0], B[1]} : Vec{A[0], B[0]}, y = f ? Vec{B[0], A[1]} : Vec{A[1], B[1]}; if (x[0] == x[1] || y[0] == y[1]) continue; g.scopes[a] = mk(x[0], x[1]); g.scopes[b] = mk(y[0], y[1]); } }
   else if (m == 1) g.scopes[c.upTo(E - 1)] = c.subset(g.n, 2);
   else if (m == 2) g.scopes.push_back(c.subset(g.n, 2));
   else g.scopes.erase(g.scopes.begin() + c.upTo(E - 1));
   decorate(c, g); relabel(c, g); checkAll(c, g);
}
