#include "zoo.hxx"
#include "pairwise.hxx"
#include <opengm/inference/trws/trws_trws.hxx>
#include <opengm/inference/trws/trws_adsal.hxx>
#include <opengm/inference/trws/smooth_nesterov.hxx>
#include <opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx>
#include <opengm/inference/dynamicprogramming.hxx>
using namespace zoo;
typedef SumGMs::All GM;
static Opt dualOpt(Ctx& c) { Opt o; if (c.flip(0.2)) o.amp = 1; return o; }
template<class ST> static typename ST::StructureType structure(Ctx& c, Model& m) { int k = c.upTo(4); m = (k == 0 ? genPairwise(c, GRID, false, dualOpt(c)) : genPairwise(c, c.pick({CHAIN, TREE, GRID, ANY}), true, dualOpt(c))).m; c.note(m.str()); auto t = k == 0 ? ST::GRIDSTRUCTURE : k == 1 ? ST::EDGESTRUCTURE : ST::GENERALSTRUCTURE; c.note(ST::getString(t)); return t; }
template<class ACC> static Flags dualFlags() { Flags f; f.mx = ACC::bop(1, 0); f.tol = 1e-7; f.vtol = 1e-9; f.early = false; return f; }
#ifdef DUAL_TRWS
template<class ACC> static void trws(Ctx& c) {
   typedef opengm::TRWSi<GM, ACC> S; Model m; auto t = structure<typename S::Storage>(c, m); auto gm = buildAll<GM>(m); typename S::Parameter p(c.pick({30, 1, 5}), t, 1e-9); p.fastComputations_ = c.flip(); p.canonicalNormalization_ = c.flip(); if (c.flip(0.2)) p.setTreeAgreeMaxStableIter(c.range(1, 20));
   ZOO<S>(c, m, gm, [&](const GM& g) { return new S(g, p); }, dualFlags<ACC>(), "TRWSi");
}
PROP(trws, 800, 20000) { if (c.flip()) trws<opengm::Minimizer>(c); else trws<opengm::Maximizer>(c); }
#endif
#ifdef DUAL_SMOOTH
template<class P> static void smoothing(Ctx& c, P& p) { typedef typename P::SmoothingParametersType SP; p.maxNumberOfIterations() = c.pick({20, 1, 5}); p.numberOfInternalIterations() = c.range(1, 4); p.setPrecision(c.pick({1e-9, 1e-3})); p.smoothingStrategy() = c.pick({SP::ADAPTIVE_DIMINISHING, SP::WC_DIMINISHING, SP::ADAPTIVE_PRECISIONORIENTED}); p.lazyLPPrimalBoundComputation() = c.flip(); if (c.flip(0.3)) p.maxNumberOfPresolveIterations() = c.pick({1, 5}); c.note(pbt::str(SP::getString(p.smoothingStrategy()), " iterations ", p.maxNumberOfIterations(), "x", p.numberOfInternalIterations(), " presolve ", p.maxNumberOfPresolveIterations())); }
template<class S> static void smooth(Ctx& c, const char* what) {
   typedef typename S::AccumulationType ACC; Model m; auto t = structure<typename S::Storage>(c, m); auto gm = buildAll<GM>(m); typename S::Parameter p; smoothing(c, p); p.decompositionType() = t; 
   ZOO<S>(c, m, gm, [&](const GM& g) { return new S(g, p); }, dualFlags<ACC>(), what);
}
PROP(adsal, 400, 10000) { if (c.flip()) smooth<opengm::ADSal<GM, opengm::Minimizer> >(c, "ADSal"); else smooth<opengm::ADSal<GM, opengm::Maximizer> >(c, "ADSal"); }
PROP(nesterov, 400, 10000) { if (c.flip()) smooth<opengm::NesterovAcceleratedGradient<GM, opengm::Minimizer> >(c, "Nesterov"); else smooth<opengm::NesterovAcceleratedGradient<GM, opengm::Maximizer> >(c, "Nesterov"); }
#endif
#ifdef DUAL_DD
template<class ACC> static void dd(Ctx& c) {
   typedef opengm::DDDualVariableBlock<marray::Marray<double> > B; typedef typename opengm::DualDecompositionBase<GM, B>::SubGmType Sub; typedef opengm::DynamicProgramming<Sub, ACC> INF; typedef opengm::DualDecompositionSubGradient<GM, INF, B> S; Model m = genPairwise(c, c.pick({CHAIN, TREE, GRID, ANY}), true, dualOpt(c)).m; c.note(m.str()); auto gm = buildAll<GM>(m);
   typename S::Parameter p; p.maximalNumberOfIterations_ = c.pick({20, 1, 5}); p.stepsizeStride_ = c.pick({1.0, 0.1}); p.decompositionId_ = c.flip() ? S::Parameter::TREE : S::Parameter::SPANNINGTREES; int k = c.upTo(2); if (k == 1) p.stepsizePrimalDualGapStride_ = true; if (k == 2) p.useAdaptiveStepsize_ = true;
   ZOO<S>(c, m, gm, [&](const GM& g) { return new S(g, p); }, dualFlags<ACC>(), "DualDecompositionSubGradient");
}
PROP(dual_decomposition, 600, 15000) { if (c.flip()) dd<opengm::Minimizer>(c); else dd<opengm::Maximizer>(c); }
#endif
