// FLAGS: HDF5
// TOOLS: opengm_min_sum
#include "cli.hxx"
#include <opengm/inference/lazyflipper.hxx>
#include <opengm/inference/fusion_based_inf.hxx>
using namespace cli;
typedef opengm::Minimizer ACC; typedef SumGM GM; namespace pg = opengm::proposal_gen;
template<class S> static void basics(Ctx& c, Run& r, typename S::Parameter& p, int how) {
   r.add(c.flip() ? "-f" : "--fusion", how == 0 ? "LF" : how == 1 ? "QPBO" : "ILP"); p.numIt_ = 100; p.numStopIt_ = 0; p.fusionParam_.fusionSolver_ = S::FusionMover::LazyFlipperFusion; p.fusionParam_.maxSubgraphSize_ = 2; if (c.flip(0.6)) { p.numIt_ = c.range(0, 12); r.add("--numIt", std::to_string(p.numIt_)); } if (c.flip(0.5)) { p.numStopIt_ = c.range(1, 6); r.add("--numStopIt", std::to_string(p.numStopIt_)); } if (c.flip(0.5)) { p.fusionParam_.maxSubgraphSize_ = c.range(1, 5); r.add("--maxSS", std::to_string(p.fusionParam_.maxSubgraphSize_)); }
}
template<template<class, class> class GEN> static void fuse(Ctx& c, const char* gen, bool same) {
   typedef opengm::FusionBasedInf<GM, GEN<GM, ACC> > S; Model m = genModel(c, sumOpts(c)); c.note(m.str()); Input in; Run r; r.alg = "Fusion"; if (std::string(gen) != "A-EXP" || c.flip()) r.add(c.flip() ? "-g" : "--gen", gen); typename S::Parameter p; int how = (int)c.weighted({ 10, 1, 1 }); basics<S>(c, r, p, how); Flags f; f.same = same; f.lazy = how; c.label(gen);
   sum<S>(c, m, in, r, f, [&](const GM& g) { if (how) throw std::runtime_error("not compiled in"); return new S(g, p); });
}
PROP(expansion, 160, 4000) { fuse<pg::AlphaExpansionGen>(c, "A-EXP", true); }
PROP(swap_moves, 160, 4000) { fuse<pg::AlphaBetaSwapGen>(c, "AB-SWAP", true); }
PROP(up_down, 160, 4000) { fuse<pg::UpDownGen>(c, "UP-DOWN", true); }
PROP(random_labels, 100, 3000) { fuse<pg::RandomGen>(c, "RANDOM", false); }
PROP(random_lf, 100, 3000) { fuse<pg::RandomLFGen>(c, "RANDOMLF", false); }
PROP(random_nu, 100, 3000) { fuse<pg::NonUniformRandomGen>(c, "NU_RANDOM", false); }
