#include "dual.hxx"
template<class ACC> static void run(Ctx& c) {
   typedef opengm::ADSal<GM, ACC> S; typedef typename S::Storage ST; Pairwise q; auto t = structure<ST>(c, q); auto gm = buildAll<GM>(q.m);
   typename S::Parameter p; p.maxNumberOfIterations() = c.pick({1, 5, 20}); p.setPrecision(1e-6); p.decompositionType() = t; S s(gm, p); Quiet quiet;
   s.infer(); reparam(c, s, q, false);
}
PROP(adsal, 250, 8000) { run<opengm::Minimizer>(c); }
PROP(adsal_max, 150, 5000) { run<opengm::Maximizer>(c); }
