#include "gen_model.hxx"
#include <memory>
using namespace gen;
typedef SumGMs::All GM; typedef SumGMs::Permuted GMP;

struct Ref { Vec labels; std::vector<Vec> scopes; bool pending = false; };

template<class G> static void verify(pbt::Ctx& c, const G& g, const Ref& r, const char* what) {
   typedef typename G::IndexType I;
   size_t n = r.labels.size(), F = r.scopes.size();
   CHECK_EQ((size_t)g.numberOfVariables(), n, what);
   CHECK_EQ((size_t)g.numberOfFactors(), F, what);
   size_t ord = 0; for (auto& s : r.scopes) ord = std::max(ord, s.size());
   CHECK_EQ((size_t)g.factorOrder(), ord, what);
   CHECK_EQ((size_t)g.maxFactorOrder(), ord, what);
   for (size_t k = 0; k <= ord + 1; ++k) CHECK_EQ(g.maxFactorOrder(k), ord <= k, what << " maxFactorOrder(" << k << ")");
   size_t ml = 0; for (size_t l : r.labels) ml = std::max(ml, l);
   CHECK_EQ((size_t)g.maxNumberOfLabels(), ml, what);
   for (size_t v = 0; v < n; ++v) { CHECK_EQ((size_t)g.numberOfLabels(v), r.labels[v], what); CHECK_EQ((size_t)g.space().numberOfLabels(v), r.labels[v], what); }
   CHECK_EQ((size_t)g.space().numberOfVariables(), n, what);
   // scopes
   for (size_t f = 0; f < F; ++f) {
      const Vec& s = r.scopes[f];
      CHECK_EQ((size_t)g.numberOfVariables((I)f), s.size(), what << " factor " << f);
      CHECK_EQ((size_t)g[f].numberOfVariables(), s.size(), what << " factor " << f);
      Vec viaIt(g.variablesOfFactorBegin(f), g.variablesOfFactorEnd(f)), viaFac(g[f].variableIndicesBegin(), g[f].variableIndicesEnd());
      CHECK(viaIt == s, what << " variablesOfFactor(" << f << ") = " << pbt::vec(viaIt) << " expected " << pbt::vec(s));
      CHECK(viaFac == s, what << " factor " << f << " variableIndices = " << pbt::vec(viaFac) << " expected " << pbt::vec(s));
      for (size_t k = 0; k < s.size(); ++k) {
         CHECK_EQ((size_t)g.variableOfFactor(f, k), s[k], what); CHECK_EQ((size_t)g[f].variableIndex(k), s[k], what);
         CHECK_EQ((size_t)g[f].numberOfLabels(k), r.labels[s[k]], what);
      }
      Vec sh(g[f].shapeBegin(), g[f].shapeEnd()), eshape; for (size_t v : s) eshape.push_back(r.labels[v]);
      CHECK(sh == eshape, what << " shape of factor " << f);
   }
   if (r.pending) return;    // adjacency of variables is only defined after finalize
   std::vector<Vec> fov(n); for (size_t f = 0; f < F; ++f) for (size_t v : r.scopes[f]) fov[v].push_back(f);
   std::vector<std::set<size_t> > nv(n), nf(F);
   for (auto& s : r.scopes) for (size_t a : s) for (size_t b : s) if (a != b) nv[a].insert(b);
   for (auto& l : fov) for (size_t a : l) for (size_t b : l) if (a != b) nf[a].insert(b);
   for (size_t v = 0; v < n; ++v) {
      CHECK_EQ((size_t)g.numberOfFactors((I)v), fov[v].size(), what << " numberOfFactors of variable " << v);
      Vec it(g.factorsOfVariableBegin(v), g.factorsOfVariableEnd(v));
      CHECK(it == fov[v], what << " factorsOfVariable(" << v << ") = " << pbt::vec(it) << " expected " << pbt::vec(fov[v]));
      for (size_t k = 0; k < fov[v].size(); ++k) CHECK_EQ((size_t)g.factorOfVariable(v, k), fov[v][k], what);
      for (size_t o = 0; o <= ord + 1; ++o) {
         Vec e; for (size_t f : fov[v]) if (r.scopes[f].size() == o) e.push_back(f);
         CHECK_EQ((size_t)g.numberOfNthOrderFactorsOfVariable(v, o), e.size(), what << " order " << o << " factors of " << v);
         opengm::FastSequence<size_t> dummy;
         marray::Vector<size_t> ids; CHECK_EQ((size_t)g.numberOfNthOrderFactorsOfVariable(v, o, ids), e.size(), what);
         CHECK_EQ((size_t)ids.size(), e.size(), what);
         Vec got; for (size_t i = 0; i < ids.size(); ++i) got.push_back(ids[i]); std::sort(got.begin(), got.end());
         CHECK(got == e, what << " ids of order " << o << " factors of " << v);
      }
      for (size_t w = 0; w < n; ++w) CHECK_EQ(g.variableVariableConnection(v, w), nv[v].count(w) != 0, what << " vvc(" << v << "," << w << ")");
      for (size_t f = 0; f < F; ++f) {
         bool e = std::count(r.scopes[f].begin(), r.scopes[f].end(), v) != 0;
         CHECK_EQ(g.variableFactorConnection(v, f), e, what << " vfc(" << v << "," << f << ")");
         CHECK_EQ(g.factorVariableConnection(f, v), e, what << " fvc(" << f << "," << v << ")");
      }
   }
   for (size_t a = 0; a < F; ++a) {
      for (size_t b = 0; b < F; ++b) CHECK_EQ(g.factorFactorConnection(a, b), nf[a].count(b) != 0, what << " ffc(" << a << "," << b << ")");
      if (r.scopes[a].size() == 2) for (int k = 0; k < 2; ++k) CHECK_EQ((size_t)g.secondVariableOfSecondOrderFactor(r.scopes[a][k], a), r.scopes[a][1 - k], what << " other variable of factor " << a);
   }
   if (n > 0) {
      marray::Matrix<bool> m; g.variableAdjacencyMatrix(m);
      CHECK_EQ((size_t)m.shape(0), n, what); CHECK_EQ((size_t)m.shape(1), n, what);
      for (size_t v = 0; v < n; ++v) for (size_t w = 0; w < n; ++w) CHECK_EQ((bool)m(v, w), nv[v].count(w) != 0, what << " adjacency matrix " << v << "," << w);
   }
   std::vector<std::set<I> > l1(3); std::vector<opengm::RandomAccessSet<I> > l2(1);
   g.variableAdjacencyList(l1); g.variableAdjacencyList(l2);
   CHECK_EQ(l1.size(), n, what); CHECK_EQ(l2.size(), n, what);
   for (size_t v = 0; v < n; ++v) {
      CHECK(std::set<size_t>(l1[v].begin(), l1[v].end()) == nv[v], what << " variableAdjacencyList " << v);
      Vec e(nv[v].begin(), nv[v].end()), q(l2[v].begin(), l2[v].end()); CHECK(q == e, what << " variableAdjacencyList (RandomAccessSet) " << v);
   }
   g.factorAdjacencyList(l1); g.factorAdjacencyList(l2);
   CHECK_EQ(l1.size(), F, what); CHECK_EQ(l2.size(), F, what);
   for (size_t f = 0; f < F; ++f) {
      Vec e(nf[f].begin(), nf[f].end()), p(l1[f].begin(), l1[f].end()), q(l2[f].begin(), l2[f].end());
      CHECK(p == e, what << " factorAdjacencyList " << f << " = " << pbt::vec(p) << " expected " << pbt::vec(e));
      CHECK(q == e, what << " factorAdjacencyList (RandomAccessSet) " << f);
   }
}
static bool shares(const Ref& r) { for (size_t a = 0; a < r.scopes.size(); ++a) for (size_t b = a + 1; b < r.scopes.size(); ++b) for (size_t v : r.scopes[a]) if (std::count(r.scopes[b].begin(), r.scopes[b].end(), v)) return true; return false; }
static std::string show(const Ref& r) { std::string s = "labels=" + pbt::vec(r.labels) + " scopes:"; for (auto& x : r.scopes) s += " " + pbt::vec(x); return s; }

// add one factor with a constant function over a random scope, iterator type varied
template<class G> static void addRandomFactor(pbt::Ctx& c, G& g, Ref& r, bool deferred) {
   size_t n = r.labels.size();
   Vec vars;
   if (!r.scopes.empty() && c.flip(0.15)) vars = c.pick(r.scopes);       // repeated scope
   else vars = c.subset(n, c.range(0, std::min<long>(4, n)));
   Vec sh; for (size_t v : vars) sh.push_back(r.labels[v]);
   typename G::FunctionIdentifier id;
   typedef Types<typename G::ValueType, typename G::IndexType, typename G::LabelType> Ty;
   double val = (double)c.sym(3);
   if (vars.size() == 2 && c.flip()) id = g.addFunction(typename Ty::Potts(sh[0], sh[1], 0, val));
   else if (vars.size() == 0 && c.flip()) id = g.addFunction(typename Ty::Explicit(val));
   else id = g.addFunction(typename Ty::Constant(sh.begin(), sh.end(), val));
   size_t fi;
   if (c.flip()) { std::set<unsigned short> s(vars.begin(), vars.end()); fi = deferred ? g.addFactorNonFinalized(id, s.begin(), s.end()) : g.addFactor(id, s.begin(), s.end()); }
   else fi = deferred ? g.addFactorNonFinalized(id, vars.begin(), vars.end()) : g.addFactor(id, vars.begin(), vars.end());
   CHECK_EQ(fi, r.scopes.size(), "factor index");
   r.scopes.push_back(vars);
   c.note(std::string(deferred ? "  deferred" : "  add") + " factor " + pbt::vec(vars));
}

PROP(history, 12000, 250000) {
   struct Slot { GM gm; Ref r; };
   std::vector<std::unique_ptr<Slot> > s; s.emplace_back(new Slot);
   { long n = c.range(0, 5); for (long i = 0; i < n; ++i) s[0]->r.labels.push_back(c.range(1, 4)); }
   s[0]->gm = GM(GM::SpaceType(s[0]->r.labels.begin(), s[0]->r.labels.end()), c.range(0, 6));
   c.note("start " + show(s[0]->r));
   long steps = c.range(1, 22);
   for (long st = 0; st < steps; ++st) {
      size_t k = c.upTo(s.size() - 1); Slot& S = *s[k];
      switch (c.weighted({2, 9, 3, 2, 2, 1, 1})) {
      case 0: if (S.r.labels.size() >= 9) break; if (S.r.pending) break; { long l = c.range(1, 4); CHECK_EQ((size_t)S.gm.addVariable(l), S.r.labels.size(), "addVariable"); S.r.labels.push_back(l); c.note(" slot " + pbt::str(k) + " addVariable " + pbt::str(l)); } break;
      case 1: if (S.r.pending) break; c.note(" slot " + pbt::str(k)); addRandomFactor(c, S.gm, S.r, false); break;
      case 2: { c.note(" slot " + pbt::str(k)); long m = c.range(1, 4); for (long i = 0; i < m; ++i) addRandomFactor(c, S.gm, S.r, true); S.r.pending = true;
                if (c.flip(0.3)) verify(c, S.gm, S.r, "before finalize");
                S.gm.finalize(); S.r.pending = false; c.label("deferred"); break; }
      case 3: { if (s.size() >= 3) break; s.emplace_back(new Slot{GM(S.gm), S.r}); c.note(" copy slot " + pbt::str(k)); c.label("copy"); break; }
      case 4: { size_t j = c.upTo(s.size() - 1); s[j]->gm = S.gm; if (j != k) s[j]->r = S.r; c.note(" assign slot " + pbt::str(j) + " = " + pbt::str(k)); c.label("assign"); break; }
      case 5: { GMP p; p = S.gm; verify(c, p, S.r, "converted"); S.gm = p; c.note(" convert"); c.label("convert"); break; }
      case 6: { S.gm.finalize(); c.note(" extra finalize"); break; }
      }
      for (size_t i = 0; i < s.size(); ++i) if (i == k || st + 1 == steps || c.flip(0.3)) verify(c, s[i]->gm, s[i]->r, i == k ? "changed slot" : "other slot");
   }
   bool sh = false; for (auto& t : s) sh |= shares(t->r);
   c.nontrivialIf(sh && steps >= 4);
}
// deferred and immediate construction give the same graph; narrow index types
PROP(deferred_equals_immediate, 6000, 120000) {
   typedef opengm::DiscreteSpace<unsigned short, unsigned char> Sp;
   typedef opengm::GraphicalModel<float, opengm::Multiplier, Types<float, unsigned short, unsigned char>::All, Sp> G;
   Ref r; long n = c.range(1, 9); for (long i = 0; i < n; ++i) r.labels.push_back(c.range(1, 4));
   std::vector<unsigned char> lab(r.labels.begin(), r.labels.end());
   G a(Sp(lab.begin(), lab.end()));
   long m = c.range(0, 12); for (long i = 0; i < m; ++i) addRandomFactor(c, a, r, true);
   a.finalize(); c.note(show(r));
   verify(c, a, r, "deferred");
   G b(a); verify(c, b, r, "copy"); b = a; verify(c, b, r, "assigned");
   c.nontrivialIf(shares(r));
}
