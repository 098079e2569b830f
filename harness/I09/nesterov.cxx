#include "smooth.hxx"
template<class ACC> static void run(Ctx& c) {
   typedef opengm::NesterovAcceleratedGradient<GM, ACC> S; typedef typename S::Storage ST; Pairwise q; auto t = structure<ST>(c, q); auto gm = buildAll<GM>(q.m);
   typename S::Parameter p; smoothing(c, p, true); p.decompositionType() = t; p.gradientStep_ = c.pick({S::Parameter::ADAPTIVE_STEP, S::Parameter::WC_STEP, S::Parameter::JOJIC_STEP}); p.plainGradient_ = c.flip(0.3); bool deep = c.flip(0.3); if (deep) { typename S::Parameter d; d.maxNumberOfIterations() = 1000; d.setPrecision(1e-6); d.decompositionType() = t; p = d; } S s(gm, p);
   c.labelIf(deep, "long run"); judge(c, s, q, deep ? 0.01 : 0, "Nesterov");
}
PROP(nesterov, 1000, 30000) { run<opengm::Minimizer>(c); }
PROP(nesterov_max, 500, 15000) { run<opengm::Maximizer>(c); }
