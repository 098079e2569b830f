#include "chains.hxx"
template<class P> void smoothing(Ctx& c, P& p, bool fixedOk) {
   typedef typename P::SmoothingParametersType SP; p.maxNumberOfIterations() = c.pick({100, 5, 20}); p.numberOfInternalIterations() = c.range(1, 5); p.setPrecision(c.pick({1e-9, 1e-3})); p.isAbsolutePrecision() = c.flip(0.8);
   p.setCanonicalNormalization(c.flip(0.8)); p.lazyLPPrimalBoundComputation() = c.flip(); p.setFastComputations(c.flip()); p.maxPrimalBoundIterationNumber() = c.pick({100, 1000}); p.verbose() = c.flip(0.1);
   int k = c.upTo(fixedOk ? 4 : 3); p.smoothingStrategy() = k == 0 ? SP::ADAPTIVE_DIMINISHING : k == 1 ? SP::WC_DIMINISHING : k == 2 ? SP::ADAPTIVE_PRECISIONORIENTED : k == 3 ? SP::WC_PRECISIONORIENTED : SP::FIXED; if (k == 2 || k == 3) p.isAbsolutePrecision() = true; c.label(SP::getString(p.smoothingStrategy()));
   if (k == 4 || (k != 3 && c.flip(0.3))) p.setStartSmoothingValue(c.pick({0.1, 1.0, 0.01})); if (c.flip(0.3)) p.maxNumberOfPresolveIterations() = c.pick({1, 5, 20}); if (c.flip(0.3)) p.smoothingGapRatio() = c.pick({2.0, 8.0}); if (c.flip(0.2)) p.smoothingDecayMultiplier() = c.pick({1.0, 10.0});
   c.note(pbt::str(SP::getString(p.smoothingStrategy()), " iterations ", p.maxNumberOfIterations(), "x", p.numberOfInternalIterations(), " precision ", p.precision(), p.isAbsolutePrecision() ? " absolute" : " relative", p.canonicalNormalization() ? " canonical" : "", p.lazyLPPrimalBoundComputation() ? " lazy" : "", p.fastComputations() ? " fast" : "", " start ", p.startSmoothingValue(), " presolve ", p.maxNumberOfPresolveIterations(), " ratio ", p.smoothingGapRatio(), " decay ", p.smoothingDecayMultiplier()));
}
