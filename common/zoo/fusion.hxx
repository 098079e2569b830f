#include "zoo.hxx"
#include <opengm/inference/icm.hxx>
#include <opengm/inference/lazyflipper.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>
#include <opengm/inference/fusion_based_inf.hxx>
#include <opengm/inference/self_fusion.hxx>
using namespace zoo;
template<template<class, class> class GEN> static void fusing(Ctx& c, const char* what) {
   typedef SumGMs::All GM; typedef opengm::FusionBasedInf<GM, GEN<GM, opengm::Minimizer> > S; Flags f; Model m = genModel(c, opts(c, f)); c.note(m.str()); auto gm = buildAll<GM>(m); typename S::Parameter p; p.fusionParam_ = typename S::FusionParameter(S::FusionMover::DefaulFusion, c.range(1, 6)); p.numIt_ = c.pick({1000, 0, 5}); p.numStopIt_ = c.upTo(5); bool given = c.flip(); std::vector<size_t> st = start(c, m);
   ZOO<S>(c, m, gm, [&](const GM& g) { S* s = new S(g, p); if (given) s->setStartingPoint(st.begin()); return s; }, f, what);
}
PROP(fusion_expansion, 500, 15000) { fusing<opengm::proposal_gen::AlphaExpansionGen>(c, "FusionBasedInf (expansion)"); }
PROP(fusion_swap, 500, 15000) { fusing<opengm::proposal_gen::AlphaBetaSwapGen>(c, "FusionBasedInf (swap)"); }
PROP(fusion_random, 500, 15000) { fusing<opengm::proposal_gen::RandomGen>(c, "FusionBasedInf (random)"); }
template<class G, class ACC> static void selfBp(Ctx& c, Flags f) {
   typedef typename G::All GM; typedef opengm::BeliefPropagationUpdateRules<GM, ACC> R; typedef opengm::MessagePassing<GM, ACC, R, opengm::MaxDistance> I; typedef opengm::SelfFusion<I> S; Model m = genModel(c, opts(c, f)); c.note(m.str()); auto gm = buildAll<GM>(m);
   typename I::Parameter ip(c.range(1, 15), 0.0, c.pick({0.0, 0.5})); ip.useNormalization_ = opengm::Tribool::True; typename S::Parameter p(c.range(1, 3), S::LazyFlipperFusion, ip, c.range(1, 4)); f.vtol = 1e-12;
   ZOO<S>(c, m, gm, [&](const GM& g) { return new S(g, p); }, f, "SelfFusion (propagation)");
}
PROP(self_fusion_bp, 500, 15000) { Flags f; selfBp<SumGMs, opengm::Minimizer>(c, f); }
template<class ACC> static void selfIcm(Ctx& c, bool mx) {
   typedef SumGMs::All GM; typedef opengm::ICM<GM, ACC> I; typedef opengm::SelfFusion<I> S; Flags f; f.mx = mx; Model m = genModel(c, opts(c, f)); c.note(m.str()); auto gm = buildAll<GM>(m); typename I::Parameter ip; if (c.flip()) ip.startPoint_ = start(c, m); typename S::Parameter p(c.range(1, 3), S::LazyFlipperFusion, ip, c.range(1, 4));
   ZOO<S>(c, m, gm, [&](const GM& g) { return new S(g, p); }, f, "SelfFusion (ICM)");
}
PROP(self_fusion_icm, 500, 15000) { if (c.flip()) selfIcm<opengm::Minimizer>(c, false); else selfIcm<opengm::Maximizer>(c, true); }
