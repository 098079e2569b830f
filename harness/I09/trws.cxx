#include "chains.hxx"
template<class ACC> static void run(Ctx& c) {
   typedef opengm::TRWSi<GM, ACC> S; typedef typename S::Storage ST; Pairwise q; auto t = structure<ST>(c, q); auto gm = buildAll<GM>(q.m);
   typename S::Parameter p(c.pick({400, 3, 20}), t, 1e-9); p.fastComputations_ = c.flip(); p.canonicalNormalization_ = c.flip(); p.verbose_ = c.flip(0.1); if (c.flip(0.2)) p.setTreeAgreeMaxStableIter(c.range(1, 50)); S s(gm, p); 
   judge(c, s, q, p.maxNumberOfIterations_ == 400 && p.treeAgreeMaxStableIter() == 400 ? 0.02 : 0, "TRWSi");
}
PROP(trws, 1500, 40000) { run<opengm::Minimizer>(c); }
PROP(trws_max, 750, 20000) { run<opengm::Maximizer>(c); }
