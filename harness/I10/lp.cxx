// I10: duals of the local polytope reparametrise the model
#include "pairwise.hxx"
#include <opengm/inference/auxiliary/lp_reparametrization.hxx>
using namespace gen;
using pbt::Ctx;
typedef SumGMs::All GM;

template<class ACC>
static void run(Ctx& c) {
   typedef opengm::LPReparametrizer<GM, ACC> R; typedef typename R::RepaStorageType ST; typedef typename R::ReparametrizedGMType RGM;
   Opt o; o.dyadic = c.flip(); if (c.flip(0.4)) o.amp = 1;
   Pairwise q = genPairwise(c, c.pick({CHAIN, TREE, GRID, ANY}), true, o);
   Model& m = q.m; const size_t n = m.n();
   for (size_t k = c.flip(0.4) ? c.range(1, 3) : 0; k-- && n >= 3;) {
      Factor f; f.vars = c.subset(n, c.range(2, std::min<size_t>(n, 4))); std::sort(f.vars.begin(), f.vars.end());
      Vec sh; for (size_t v : f.vars) sh.push_back(m.labels[v]);
      f.f = m.funcs.size(); m.funcs.push_back(genFunc(c, o, sh)); m.factors.insert(m.factors.begin() + c.upTo(m.factors.size()), f);
   }
   c.note(m.str());
   auto gm = buildAll<GM>(m);
   R r(gm); ST& st = r.Reparametrization();
   CHECK(&r.graphicalModel() == &gm && &st.graphicalModel() == &gm, "graphicalModel");
   // duals
   std::vector<std::vector<std::vector<double> > > d(m.factors.size());
   const int mode = c.weighted({6, 1, 2}); size_t total = 0;
   for (size_t f = 0; f < m.factors.size(); ++f) {
      const Vec& vs = m.factors[f].vars; if (vs.size() < 2) continue;
      d[f].resize(vs.size());
      for (size_t k = 0; k < vs.size(); ++k) {
         CHECK_EQ((size_t)st.localId(f, vs[k]), k, "localId");
         auto it = st.getIterators(f, k); CHECK_EQ((size_t)(it.second - it.first), m.labels[vs[k]], "number of duals");
         for (; it.first != it.second; ++it.first) { CHECK_EQ(*it.first, 0.0, "initial dual"); double x = mode == 1 ? 0 : mode == 2 ? c.sym(1) : c.sym(20) / 4.0; *it.first = x; d[f][k].push_back(x); ++total; }
         CHECK(st.get(f, k) == d[f][k], "get(" << f << "," << k << ")");
      }
      for (size_t v = 0; v < n; ++v) if (std::find(vs.begin(), vs.end(), v) == vs.end()) { bool thrown = false; try { st.localId(f, v); } catch (std::exception&) { thrown = true; } CHECK(thrown, "localId of a variable that is not in the factor"); break; }
   }
   auto unary = [&](size_t v, size_t l, bool dual) { double s = 0; for (size_t f = 0; f < m.factors.size(); ++f) { const Vec& vs = m.factors[f].vars; for (size_t k = 0; k < vs.size(); ++k) if (vs[k] == v) { if (vs.size() == 1) s += m.funcs[m.factors[f].f].eval(Vec(1, l)); else if (dual) s -= d[f][k][l]; } } return s; };
   auto factor = [&](size_t f, const Vec& x) { const Vec& vs = m.factors[f].vars; if (vs.size() == 1) return unary(vs[0], x[vs[0]], true); double s = m.factorValue(f, x); for (size_t k = 0; k < vs.size(); ++k) s += d[f][k][x[vs[k]]]; return s; };
   for (size_t v = 0; v < n; ++v) for (size_t l = 0; l < m.labels[v]; ++l) CHECK_EQ((double)st.getVariableValue(v, l), unary(v, l, true), "getVariableValue(" << v << "," << l << ")");
   // the reparametrised model
   RGM rg; if (c.flip(0.3)) { r.getReparametrizedModel(rg); } r.getReparametrizedModel(rg);
   CHECK_EQ((size_t)rg.numberOfVariables(), n, "variables"); CHECK_EQ((size_t)rg.numberOfFactors(), m.factors.size(), "factors");
   for (size_t f = 0; f < m.factors.size(); ++f) { CHECK_EQ((size_t)rg[f].numberOfVariables(), m.factors[f].vars.size(), "order"); for (size_t k = 0; k < m.factors[f].vars.size(); ++k) { CHECK_EQ((size_t)rg[f].variableIndex(k), m.factors[f].vars[k], "scope"); CHECK_EQ((size_t)rg[f].shape(k), m.labels[m.factors[f].vars[k]], "shape"); } CHECK_EQ((size_t)rg[f].size(), (size_t)gm[f].size(), "size"); }
   const bool mx = ACC::bop(1, 0); double opt = bruteMin(m, false, mx).value, sg = mx ? -1 : 1, bound = 0;
   std::vector<double> best(m.factors.size(), HUGE_VAL); 
   forAll(m.labels, [&](const Vec& x) {
      double s = 0;
      for (size_t f = 0; f < m.factors.size(); ++f) {
         Vec y; for (size_t v : m.factors[f].vars) y.push_back(x[v]);
         double w = factor(f, x); s += w; best[f] = std::min(best[f], sg * w);
         CHECK_EQ((double)st.getFactorValue(f, y.begin()), w, "getFactorValue of factor " << f); CHECK_EQ((double)rg[f](y.begin()), w, "reparametrised factor " << f);
      }
      CHECK_EQ(s, m.sum(x), "oracle"); CHECK_EQ((double)rg.evaluate(x), m.sum(x), "energy of " << pbt::vec(x) << " after the reparametrisation");
   });
   for (size_t f = 0; f < m.factors.size(); ++f) { double e = mx ? rg[f].max() : rg[f].min(); CHECK_EQ(sg * e, best[f], "best value of factor " << f); bound += sg * e; }
   CHECK(bound <= sg * opt, "bound of the reparametrisation " << bound << " beyond the optimum " << sg * opt);
   // arc consistency
   std::vector<bool> mask(c.upTo(3), c.flip()); std::vector<GM::LabelType> lab(c.upTo(3), 1);
   if (c.flip(0.8)) r.getArcConsistency(&mask, &lab); else r.getArcConsistency(&mask, &lab, c.range(1, 4));
   CHECK_EQ(mask.size(), n, "mask"); CHECK_EQ(lab.size(), n, "labeling"); bool all = true; size_t agree = 0;
   Vec L(lab.begin(), lab.end());
   for (size_t v = 0; v < n; ++v) {
      CHECK(L[v] < m.labels[v], "label out of range");
      for (size_t l = 0; l < m.labels[v]; ++l) CHECK(sg * unary(v, L[v], true) <= sg * unary(v, l, true), "label " << L[v] << " of variable " << v << " is not locally optimal");
      bool extend = true, everywhere = true; // every factor has an optimal labeling with this label / is optimal at the labels
      for (size_t f = 0; f < m.factors.size(); ++f) {
         const Vec& vs = m.factors[f].vars; size_t k = std::find(vs.begin(), vs.end(), v) - vs.begin(); if (k == vs.size() || vs.size() == 1) continue;
         bool e = false; forAll(m.labels, [&](const Vec& x) { if (x[v] == L[v] && sg * factor(f, x) == best[f]) e = true; }); extend &= e;
         everywhere &= sg * factor(f, L) == best[f];
      }
      if (mask[v]) { ++agree; CHECK(extend, "variable " << v << " is called consistent but no optimal labeling of some factor has its label"); }
      else { all = false; CHECK(!everywhere, "variable " << v << " is called inconsistent although the labels are optimal for all its factors"); }
   }
   if (all) { CHECK_EQ(m.sum(L), opt, "all variables consistent but the labeling is not optimal"); CHECK_EQ(sg * bound, opt, "all variables consistent but the bound is not tight"); }
   c.labelIf(all, "all consistent"); c.labelIf(agree && !all, "some consistent");
   // serialisation
   std::vector<double> ser(c.upTo(3), 5.0); st.serialize(&ser); CHECK_EQ(ser.size(), total, "size of the serialisation");
   R r2(gm); r2.Reparametrization().deserialize(ser);
   for (size_t f = 0; f < m.factors.size(); ++f) for (size_t k = 0; k < d[f].size(); ++k) CHECK(r2.Reparametrization().get(f, k) == d[f][k], "deserialised duals of factor " << f);
   for (int delta = -1; delta <= 1; delta += 2) { if (delta < 0 && !total) continue; std::vector<double> bad(ser); bad.resize(total + delta); bool thrown = false; try { R r3(gm); r3.Reparametrization().deserialize(bad); } catch (std::runtime_error&) { thrown = true; } CHECK(thrown, "a serialisation of the wrong size is accepted"); }
   c.nontrivialIf(total > 0 && m.nConfigs() > 3);
}
PROP(duals, 2500, 80000) { run<opengm::Minimizer>(c); }
PROP(duals_max, 1500, 50000) { run<opengm::Maximizer>(c); }
