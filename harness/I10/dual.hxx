#include "../I09/chains.hxx"
#include <memory>
template<class ST> double subEnergy(ST& st, const Vec& x) {
   double s = 0;
   for (size_t i = 0; i < (size_t)st.numberOfModels(); ++i) { auto& sub = st.subModel(i); std::vector<GM::LabelType> y; for (size_t k = 0; k < (size_t)sub.size(); ++k) y.push_back(x[sub.varIndex(k)]); s += sub.evaluate(y.begin()); }
   return s;
}
template<class ST> void sameEnergy(Ctx& c, ST& st, const Model& m, double t, const char* what) {
   (void)c; forAll(m.labels, [&](const Vec& x) { CHECK_NEAR(subEnergy(st, x), m.sum(x), t, what << ": energy of the sub-problems at " << pbt::vec(x)); });
}
template<class S> void reparam(Ctx& c, S& s, const Pairwise& q, bool inferred) {
   typedef typename S::AccumulationType ACC; typedef typename S::ReparametrizerType R; const Model& m = q.m; const size_t n = m.n(); const bool mx = ACC::bop(1, 0);
   const double sg = mx ? -1 : 1, opt = bruteMin(m, false, mx).value; double mag = 1; for (size_t f = 0; f < m.factors.size(); ++f) forAll(m.labels, [&](const Vec& x) { mag = std::max(mag, std::fabs(m.factorValue(f, x))); });
   const double t = 1e-9 * mag * (1 + m.factors.size());
   sameEnergy(c, s.getDecompositionStorage(), m, t, "after the solver");
   std::unique_ptr<R> r(s.getReparametrizer(typename R::Parameter(c.flip())));
   const size_t rounds = c.range(1, 2);
   for (size_t k = 0; k < rounds; ++k) {
      typename R::MaskType mask(n); for (size_t v = 0; v < n; ++v) mask[v] = c.flip(0.7); typename R::ImmovableLabelingType im(n); for (size_t v = 0; v < n; ++v) for (size_t l = 0; l < m.labels[v]; ++l) im[v].push_back(c.flip(0.4));
      const int how = c.upTo(2); if (how == 0) r->reparametrize(); else if (how == 1) { c.note("mask " + pbt::str(pbt::vec(Vec(mask.begin(), mask.end())))); r->reparametrize(&mask); } else r->reparametrize(im);
      c.label(how == 0 ? "all" : how == 1 ? "mask" : "immovable");
      typename R::ReparametrizedGMType rg; r->getReparametrizedModel(rg);
      forAll(m.labels, [&](const Vec& x) { CHECK_NEAR((double)rg.evaluate(x), m.sum(x), t, "energy of " << pbt::vec(x) << " after reparametrize"); });
      double b = 0; for (size_t f = 0; f < (size_t)rg.numberOfFactors(); ++f) b += sg * (mx ? rg[f].max() : rg[f].min());
      CHECK(b <= sg * opt + t, "bound " << b << " of the reparametrised model beyond the optimum " << sg * opt);
      bool tightMask = how == 0; 
      if (tightMask && inferred) { CHECK(b >= sg * (double)s.bound() - 1e-6 * mag - t || !q.edges, "bound " << b << " of the reparametrised model is worse than the solver's " << sg * s.bound()); c.label("bound compared"); }
      if (how == 2) for (size_t f = 0; f < m.factors.size(); ++f) if (m.factors[f].vars.size() == 2) {
         const Vec& vs = m.factors[f].vars;
         for (size_t k2 = 0; k2 < 2; ++k2) for (size_t l = 0; l < m.labels[vs[k2]]; ++l) if (im[vs[k2]][l]) CHECK_EQ((double)r->Reparametrization().get(f, k2)[l], 0.0, "dual of an immovable label");
         for (size_t a = 0; a < m.labels[vs[0]]; ++a) for (size_t e = 0; e < m.labels[vs[1]]; ++e) if (!im[vs[0]][a] || !im[vs[1]][e]) { size_t y[2] = {a, e}; CHECK(sg * (double)rg[f](y) >= -t, "reparametrised pairwise factor " << f << " has the wrong sign at " << a << "," << e << ": " << rg[f](y)); }
      }
      std::vector<bool> ac; std::vector<GM::LabelType> lab; r->getArcConsistency(&ac, &lab);
      bool all = true; for (size_t v = 0; v < n; ++v) { CHECK((size_t)lab[v] < m.labels[v], "label"); all &= ac[v]; }
      if (all) { Vec L(lab.begin(), lab.end()); CHECK_NEAR(m.sum(L), opt, 10 * t, "all variables are arc consistent but the labeling is not optimal"); c.label("arc consistent"); }
      // hand the duals over to a storage of sub-problems
      typename S::Storage st(s.getDecompositionStorage().masterModel(), s.getDecompositionStorage().getStructureType());
      opengm::LPtoDecompositionStorage(r->Reparametrization(), &st); sameEnergy(c, st, m, t, "LPtoDecompositionStorage");
   }
   sameEnergy(c, s.getDecompositionStorage(), m, t, "after the reparametrisation");
   c.nontrivialIf(q.edges > 0 && m.nConfigs() > 3);
}
