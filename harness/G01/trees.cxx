#include "gen_model.hxx"
#include <opengm/utilities/modelTrees.hxx>
using namespace gen;
PROP(dangling_trees, 5000, 200000) {
   Opt o; o.minVars = 1; o.maxVars = 9; o.maxLabels = 2; o.maxOrder = c.flip(0.8) ? 2 : 3; o.maxFactors = 11; o.kinds = {EXPL}; Model m = genModel(c, o); c.note(m.str());
   SumGMs::All gm = buildAll<SumGMs::All>(m); size_t n = m.n(); std::vector<std::set<size_t>> adj(n);
   for (auto& f : m.factors) for (size_t a : f.vars) for (size_t b : f.vars) if (a != b) adj[a].insert(b);
   // 2-core: repeatedly remove a variable with exactly one neighbour
   std::vector<std::set<size_t>> g = adj; std::vector<bool> gone(n, false); bool again = true;
   while (again) { again = false; for (size_t v = 0; v < n; ++v) if (!gone[v] && g[v].size() == 1) { g[*g[v].begin()].erase(v); g[v].clear(); gone[v] = true; again = true; } }
   // components that are trees vanish altogether (the last variable, whichever it is, becomes the root)
   for (size_t v = 0; v < n; ++v) if (!gone[v] && !adj[v].empty() && g[v].empty()) gone[v] = true;
   std::vector<bool> inTree(n, false); for (size_t v = 0; v < n; ++v) if (gone[v]) { inTree[v] = true; for (size_t w : adj[v]) inTree[w] = true; }
   opengm::modelTrees<SumGMs::All> t(gm); size_t edges = 0, wantEdges = 0, rootsSeen = 0; Vec roots; t.roots(roots); std::set<size_t> rs(roots.begin(), roots.end()); CHECK_EQ(rs.size(), roots.size(), "roots distinct"); CHECK_EQ((size_t)t.numberOfTrees(), roots.size(), "number of trees");
   std::vector<Vec> nodes; t.nodes(nodes); CHECK_EQ(nodes.size(), roots.size(), "node lists"); Vec listed(n, 0); for (auto& l : nodes) for (size_t v : l) ++listed[v];
   for (size_t v = 0; v < n; ++v) {
      size_t p = t.parentOfVariable(v), r = t.treeOfVariable(v); CHECK_EQ(p != n, (bool)inTree[v], "variable " << v << " in a dangling tree"); CHECK_EQ(listed[v], (size_t)inTree[v], "variable listed once in its tree");
      if (!inTree[v]) { CHECK_EQ(r, n, "tree of a core variable"); CHECK_EQ((size_t)t.treeOfRoot(v), n, "tree number of a core variable"); continue; }
      CHECK(rs.count(r), "tree named by its root"); if (p == v) { ++rootsSeen; CHECK(rs.count(v), "only roots are their own parents"); CHECK_EQ((size_t)t.treeOfRoot(v), (size_t)(std::lower_bound(roots.begin(), roots.end(), v) - roots.begin()), "number of the root's tree"); } else { ++edges; CHECK(adj[v].count(p), "parent is a neighbour"); CHECK_EQ(r, (size_t)t.treeOfVariable(p), "same tree as the parent"); CHECK(gone[v] , "core variables have no parent"); }
      bool in = false; for (size_t w : nodes[t.treeOfRoot(r)]) in = in || w == v; CHECK(in, "variable listed in the tree of its root");
   }
   CHECK_EQ(rootsSeen, roots.size(), "every root is its own parent");
   for (size_t v = 0; v < n; ++v) for (size_t w : adj[v]) if (w < v && (gone[v] || gone[w])) ++wantEdges; CHECK_EQ(edges, wantEdges, "tree edges"); c.nontrivialIf(edges >= 2); c.labelIf(roots.size() > 1, "trees>1");
}
