// FLAGS: HDF5
// TOOLS: opengm_min_sum
#include "cli.hxx"
#include <opengm/inference/trws/trws_trws.hxx>
#include <opengm/inference/trws/trws_adsal.hxx>
#include <opengm/inference/trws/smooth_nesterov.hxx>
using namespace cli;
typedef opengm::Minimizer ACC; typedef SumGM GM;
static Opt dualOpt(Ctx& c) { Opt o; o.kinds = sumKinds(); if (c.flip(0.2)) o.amp = 1; return o; }
template<class ST> static typename ST::StructureType structure(Ctx& c, Model& m, Run& r) { int k = c.upTo(4); m = (k == 0 ? genPairwise(c, GRID, false, dualOpt(c)) : genPairwise(c, c.pick({ CHAIN, TREE, GRID, ANY }), true, dualOpt(c))).m; c.note(m.str()); auto t = k == 0 ? ST::GRIDSTRUCTURE : k == 1 ? ST::EDGESTRUCTURE : ST::GENERALSTRUCTURE; if (k < 2 || c.flip()) r.add(c.flip() ? "-d" : "--decomposition", k == 0 ? "GRID" : k == 1 ? "EDGE" : "GENERAL"); return t; }
template<class P> static void common(Ctx& c, P& p, Run& r, size_t it) { p.maxNumberOfIterations() = it; r.add("--maxIt", std::to_string(it)); if (c.flip(0.2)) r.add("--debugverbose"); }
PROP(trws, 240, 6000) {
   typedef opengm::TRWSi<GM, ACC> S; Model m; Run r; r.alg = "TRWSi"; S::Parameter p; p.decompositionType() = structure<S::Storage>(c, m, r); Input in; common(c, p, r, c.pick({ 30, 1, 5 })); p.precision() = 0; p.isAbsolutePrecision() = true; p.fastComputations() = true; p.canonicalNormalization() = true; p.setTreeAgreeMaxStableIter(0);
   if (c.flip(0.5)) { p.precision() = c.pick({ 1e-9, 0.5, 0.01 }); r.add("--precision", num(p.precision())); if (c.flip(0.4)) { bool rel = c.flip(); p.isAbsolutePrecision() = !rel; r.add("--relative", rel ? "1" : "0"); } } if (c.flip(0.3)) { bool s = c.flip(); p.fastComputations() = !s; r.add("--slowComputations", s ? "1" : "0"); } if (c.flip(0.3)) { bool s = c.flip(); p.canonicalNormalization() = !s; r.add("--noNormalization", s ? "1" : "0"); }
   if (c.flip(0.3)) { size_t k = c.range(1, 10); p.setTreeAgreeMaxStableIter(k); r.add("--treeAgreeMaxStableIter", std::to_string(k)); } if (c.flip(0.2)) { p.minRelativeDualImprovement() = 0.01; r.add("--minRelativeDualImprovement", "0.01"); }
   sum<S>(c, m, in, r, Flags(), [&](const GM& g) { return new S(g, p); });
}
template<class S> static void smooth(Ctx& c, const char* alg, bool nesterov) {
   Model m; Run r; r.alg = alg; typename S::Parameter p; typedef typename S::Parameter::SmoothingParametersType SP; p.decompositionType() = structure<typename S::Storage>(c, m, r); Input in; common(c, p, r, c.pick({ 10, 1, 4 })); double prec = 0; bool rel = false, slow = false, noNorm = false, lazy = false, lazyD = false; int st = 0;
   if (c.flip(0.6)) { prec = c.pick({ 1e-6, 0.5, 0.01 }); r.add("--precision", num(prec)); st = (int)c.upTo(3); } else st = (int)c.upTo(1); if (c.flip(0.3)) { rel = st < 2 && c.flip(); r.add("--relative", rel ? "1" : "0"); } if (c.flip(0.3)) { slow = c.flip(); r.add("--slowComputations", slow ? "1" : "0"); } if (c.flip(0.3)) { noNorm = c.flip(); r.add("--noNormalization", noNorm ? "1" : "0"); } if (c.flip(0.3)) { lazy = c.flip(); r.add("--lazyLPPrimalBoundComputation", lazy ? "1" : "0"); }
   if (!nesterov && c.flip(0.3)) { lazyD = c.flip(); r.add("--lazyDerivativeComputation", lazyD ? "1" : "0"); } if (st || c.flip()) r.add("--smoothingStrategy", st == 0 ? "ADAPTIVE_DIMINISHING" : st == 1 ? "WC_DIMINISHING" : st == 2 ? "ADAPTIVE_PRECISIONORIENTED" : "WC_PRECISIONORIENTED");
   if (c.flip(0.4)) { p.numberOfInternalIterations() = c.range(1, 4); r.add("--numberOfInternalIterations", std::to_string(p.numberOfInternalIterations())); } if (c.flip(0.3)) { p.smoothingGapRatio() = c.pick({ 2.0, 8.0 }); r.add("--smoothingGapRatio", num(p.smoothingGapRatio())); } if (c.flip(0.2)) { p.smoothingDecayMultiplier() = 1; r.add("--smoothingDecayMultiplier", "1"); } if (c.flip(0.3)) { p.maxNumberOfPresolveIterations() = c.pick({ 1, 5 }); r.add("--maxNumberOfPresolveIterations", std::to_string(p.maxNumberOfPresolveIterations())); } if (c.flip(0.2)) { p.maxPrimalBoundIterationNumber() = 100; r.add("--maxPrimalBoundIterationNumber", "100"); }
   double sm = p.startSmoothingValue(); if (st != 3 && c.flip(0.3)) { sm = c.pick({ 0.1, 1.0 }); r.add(nesterov ? "--Nesterov_startSmoothing" : "--ADSal_startSmoothing", num(sm)); }
   p.isAbsolutePrecision() = !rel; p.setStartSmoothingValue(sm); p.lazyLPPrimalBoundComputation() = lazy; p.setFastComputations(!slow); p.setCanonicalNormalization(!noNorm); p.setPrecision(prec); p.smoothingStrategy() = st == 0 ? SP::ADAPTIVE_DIMINISHING : st == 1 ? SP::WC_DIMINISHING : st == 2 ? SP::ADAPTIVE_PRECISIONORIENTED : SP::WC_PRECISIONORIENTED;
   if constexpr (std::is_same<S, opengm::NesterovAcceleratedGradient<GM, ACC> >::value) { typedef typename S::Parameter P; int gs = (int)c.upTo(2); if (gs || c.flip()) r.add("--gradientStep", gs == 0 ? "ADAPTIVE_STEP" : gs == 1 ? "WC_STEP" : "JOJIC_STEP"); p.gradientStep_ = gs == 0 ? P::ADAPTIVE_STEP : gs == 1 ? P::WC_STEP : P::JOJIC_STEP; p.plainGradient_ = c.flip(0.2); if (p.plainGradient_) r.add("--plainGradient"); } else p.lazyDerivativeComputation() = lazyD;
   sum<S>(c, m, in, r, Flags(), [&](const GM& g) { return new S(g, p); });
}
PROP(adsal, 200, 5000) { smooth<opengm::ADSal<GM, ACC> >(c, "ADSal", false); }
PROP(nesterov, 200, 5000) { smooth<opengm::NesterovAcceleratedGradient<GM, ACC> >(c, "Nesterov", true); }
