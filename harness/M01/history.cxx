#include "gen_model.hxx"
#include <memory>
using namespace gen;
typedef SumGMs::All GM; typedef SumGMs::Permuted GMP; typedef SumGMs::Expl GMX;
struct Slot { GM gm; Model m; std::vector<GM::FunctionIdentifier> ids; };

template<class G> static void verify(pbt::Ctx& c, const G& gm, const Model& m, const char* what) {
   CHECK_EQ((size_t)gm.numberOfVariables(), m.n(), what);
   CHECK_EQ((size_t)gm.numberOfFactors(), m.factors.size(), what);
   CHECK_EQ((size_t)gm.factorOrder(), m.order(), what);
   for (size_t v = 0; v < m.n(); ++v) CHECK_EQ((size_t)gm.numberOfLabels(v), m.labels[v], what);
   if (m.n() == 0) { Vec e(1, 0); CHECK_EQ(gm.evaluate(e.begin()), m.sum(Vec()), what); return; }
   for (int k = 0; k < 3; ++k) {
      Vec x; for (size_t l : m.labels) x.push_back(c.upTo(l - 1));
      CHECK_EQ(gm.evaluate(x.begin()), m.sum(x), what << " labels " << pbt::vec(x));
   }
}

PROP(build_copy_assign_history, 24000, 500000) {
   Opt o; o.maxOrder = 3;
   std::vector<std::unique_ptr<Slot> > s;
   s.emplace_back(new Slot);
   { long n = c.range(0, 3); for (long i = 0; i < n; ++i) s[0]->m.labels.push_back(c.range(1, 4)); }
   s[0]->gm = GM(GM::SpaceType(s[0]->m.labels.begin(), s[0]->m.labels.end()));
   if (c.flip(0.3)) s[0]->gm = GM(GM::SpaceType(s[0]->m.labels.begin(), s[0]->m.labels.end()), c.range(0, 5)); // reserve
   long steps = c.range(1, 25); bool copied = false;
   for (long st = 0; st < steps; ++st) {
      size_t k = c.upTo(s.size() - 1); Slot& S = *s[k];
      switch (c.weighted({3, 5, 6, 2, 3, 2, 2, 1})) {
      case 0: { if (S.m.n() >= 7) break; long l = c.range(1, 4); size_t id = S.gm.addVariable(l); CHECK_EQ(id, S.m.n(), "addVariable index"); S.m.labels.push_back(l); c.note("slot " + pbt::str(k) + " addVariable " + pbt::str(l)); break; }
      case 1: { // add function
         if (S.m.n() == 0) break;
         size_t ord = c.range(0, std::min<long>(3, S.m.n())); Vec vars = c.subset(S.m.n(), ord);
         Func f = genFunc(c, o, shapeOf(S.m, vars));
         int how = c.range(0, 2);
         GM::FunctionIdentifier id;
         if (how == 2 && f.kind == EXPL) { auto e = makeExplicit<double, size_t, size_t>(f); auto pr = S.gm.addFunctionWithRefReturn(e); id = pr.first;
            if (!f.shape.empty() && c.flip()) { Vec z(f.shape.size(), 0); double v = genValue(c, o); pr.second(z.begin()) = v; f.p[0] = v; } }
         else id = AddAll<GM>::add(S.gm, f, how == 1);
         c.note("slot " + pbt::str(k) + " addFunction how=" + pbt::str(how) + " " + f.str());
         c.labelIf(how == 1, "addSharedFunction");
         bool reused = false; for (size_t i = 0; i < S.ids.size(); ++i) if (S.ids[i] == id) { reused = true; CHECK(how == 1, "addFunction returned an existing identifier"); CHECK(S.m.funcs[i].shape == f.shape, "shared function reused with another shape " << f.str() << " vs " << S.m.funcs[i].str()); }
         c.labelIf(reused, "shared-hit");
         S.m.funcs.push_back(f); S.ids.push_back(id);
         Factor fa; fa.f = S.m.funcs.size() - 1; fa.vars = vars;
         size_t fi = S.gm.addFactor(id, vars.begin(), vars.end()); CHECK_EQ(fi, S.m.factors.size(), "addFactor index"); S.m.factors.push_back(fa);
         break; }
      case 2: { // add factor with an existing function
         if (S.m.funcs.empty()) break;
         size_t f = c.upTo(S.m.funcs.size() - 1); const Vec& sh = S.m.funcs[f].shape;
         // find a scope with that shape
         Vec vars; size_t from = c.upTo(2);
         for (size_t d = 0; d < sh.size(); ++d) { while (from < S.m.n() && S.m.labels[from] != sh[d]) ++from; if (from >= S.m.n()) break; vars.push_back(from++); }
         if (vars.size() != sh.size()) break;
         bool nf = c.flip(0.3);
         size_t fi = nf ? S.gm.addFactorNonFinalized(S.ids[f], vars.begin(), vars.end()) : S.gm.addFactor(S.ids[f], vars.begin(), vars.end());
         if (nf) S.gm.finalize();
         CHECK_EQ(fi, S.m.factors.size(), "addFactor index");
         Factor fa; fa.f = f; fa.vars = vars; S.m.factors.push_back(fa); c.note("slot " + pbt::str(k) + " addFactor f" + pbt::str(f) + " " + pbt::vec(vars)); c.label("factor-with-existing-function"); break; }
      case 3: { // copy
         if (s.size() >= 4) break; std::unique_ptr<Slot> t(new Slot{GM(S.gm), S.m, S.ids}); s.push_back(std::move(t)); c.note("copy slot " + pbt::str(k)); copied = true; break; }
      case 4: { size_t j = c.upTo(s.size() - 1); s[j]->gm = S.gm; if (j != k) { s[j]->m = S.m; s[j]->ids = S.ids; } c.note("assign slot " + pbt::str(j) + " = slot " + pbt::str(k)); c.labelIf(j == k, "self-assign"); copied = true; break; }
      case 5: { // heterogeneous conversion, possibly into a used target
         GMP p; if (c.flip()) { Opt o2; Model m2 = genModel(c, o2); p = buildAll<GMP>(m2); c.label("convert-into-used"); }
         p = S.gm; verify(c, p, S.m, "converted"); GM b; if (c.flip()) { Opt o2; Model m2 = genModel(c, o2); b = buildAll<GM>(m2); } b = p; verify(c, b, S.m, "converted twice"); c.label("convert"); c.note("convert slot " + pbt::str(k)); break; }
      case 6: { // mutate a function through getFunction
         std::vector<size_t> cand; for (size_t i = 0; i < S.m.funcs.size(); ++i) if (S.m.funcs[i].kind == POTTS || S.m.funcs[i].kind == EXPL) cand.push_back(i);
         if (cand.empty()) break; size_t f = c.pick(cand); double v = genValue(c, o);
         typedef Types<double> Ty; size_t cell = 0;
         if (S.m.funcs[f].kind == POTTS) { cell = c.upTo(1); S.gm.getFunction<Ty::Potts>(S.ids[f]).parameter(cell) = v; }
         else { Vec z(S.m.funcs[f].shape.size(), 0); cell = c.upTo(S.m.funcs[f].p.size() - 1); for (size_t i = 0; i < cell; ++i) nextCoord(S.m.funcs[f].shape, z); if (z.empty()) z.push_back(0); S.gm.getFunction<Ty::Explicit>(S.ids[f])(z.begin()) = v; }
         for (size_t i = 0; i < S.m.funcs.size(); ++i) if (S.ids[i] == S.ids[f]) S.m.funcs[i].p[cell] = v; // shared identifiers follow
         c.note("slot " + pbt::str(k) + " mutate f" + pbt::str(f)); c.label("mutate"); break; }
      case 7: { Vec l; long n = c.range(1, 4); for (long i = 0; i < n; ++i) l.push_back(c.range(1, 3)); S.gm.assign(GM::SpaceType(l.begin(), l.end())); S.m = Model(); S.m.labels = l; S.ids.clear(); c.note("slot " + pbt::str(k) + " assign space " + pbt::vec(l)); c.label("assign-space"); break; }
      }
      for (size_t i = 0; i < s.size(); ++i) verify(c, s[i]->gm, s[i]->m, i == k ? "changed slot" : "other slot");
   }
   size_t nf = 0; for (auto& t : s) nf = std::max(nf, t->m.factors.size());
   c.nontrivialIf(nf >= 2 && steps >= 4); c.labelIf(copied, "copied");
}

// narrow index/label/value types and a compile-time different label space
PROP(narrow_types, 12000, 200000) {
   typedef opengm::SimpleDiscreteSpace<unsigned int, unsigned char> Sp;
   typedef Types<float, unsigned int, unsigned char> Ty;
   typedef opengm::GraphicalModel<float, opengm::Adder, Ty::All, Sp> G;
   Opt o; o.uniformLabels = true; o.maxOrder = 3; o.maxVars = 6; Model m = genModel(c, o); c.note(m.str());
   G g(Sp(m.n(), m.labels.empty() ? 1 : m.labels[0])); fillAll(g, m);
   for (int k = 0; k < 8; ++k) { Vec x; for (size_t l : m.labels) x.push_back(c.upTo(l - 1)); CHECK_EQ((double)g.evaluate(x.begin()), m.sum(x), pbt::vec(x)); }
   G h(g); G k2; k2 = h;
   for (int k = 0; k < 4; ++k) { Vec x; for (size_t l : m.labels) x.push_back(c.upTo(l - 1)); CHECK_EQ((double)k2.evaluate(x.begin()), m.sum(x), pbt::vec(x)); }
   c.nontrivialIf(m.factors.size() >= 2);
}
// label counts near the limits of narrow label types
PROP(large_label_spaces, 2000, 40000) {
   typedef opengm::DiscreteSpace<size_t, unsigned short> Sp;
   typedef Types<double, size_t, unsigned short> Ty;
   typedef opengm::GraphicalModel<double, opengm::Adder, Ty::All, Sp> G;
   Model m; long n = c.range(2, 3); for (long i = 0; i < n; ++i) m.labels.push_back(c.range(200, 700));
   Opt o; o.kinds = {POTTS, POTTSN, ABSD, SQD, TABSD, TSQD, CONSTANT};
   for (long i = 0; i < 3; ++i) { Vec vars = c.subset(n, 2); m.funcs.push_back(genFunc(c, o, shapeOf(m, vars))); m.factors.push_back(Factor{m.funcs.size() - 1, vars}); }
   c.note(m.str());
   std::vector<unsigned short> l(m.labels.begin(), m.labels.end());
   G g(Sp(l.begin(), l.end())); fillAll(g, m);
   for (int k = 0; k < 20; ++k) { Vec x; for (size_t q : m.labels) x.push_back(c.upTo(q - 1)); CHECK_EQ(g.evaluate(x.begin()), m.sum(x), pbt::vec(x)); }
   for (size_t f = 0; f < 3; ++f) CHECK_EQ((size_t)g[f].size(), prodOf(shapeOf(m, m.factors[f].vars)), "size of factor " << f);
   c.nontrivial();
}
