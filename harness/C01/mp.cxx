// FLAGS: HDF5
// TOOLS: opengm_min_sum
#include "cli.hxx"
#include <opengm/inference/messagepassing/messagepassing.hxx>
#include <opengm/inference/infandflip.hxx>
#include <opengm/inference/self_fusion.hxx>
using namespace cli;
typedef opengm::Minimizer ACC; typedef SumGM GM;
template<class S> static void passing(Ctx& c, const char* alg, bool trbp) {
   Opt o = sumOpts(c); o.tree = c.flip(0.3); Model m = genModel(c, o); c.note(m.str()); Input in; Run r; r.alg = alg; typename S::Parameter p; p.maximumNumberOfSteps_ = 100; p.bound_ = 0; p.damping_ = 0; p.inferSequential_ = false; if (c.flip(0.8)) { p.maximumNumberOfSteps_ = c.range(1, 20); r.add("--maxIt", std::to_string(p.maximumNumberOfSteps_)); } if (c.flip(0.4)) { p.bound_ = c.pick({ 1e-3, 1e-7, 0.5 }); r.add("--bound", num(p.bound_)); }
   if (c.flip(0.5)) { p.damping_ = c.pick({ 0.25, 0.5, 0.7 }); r.add("--damping", num(p.damping_)); } if (c.flip(0.3)) { p.inferSequential_ = true; r.add("--sequential"); c.label("sequential"); } Flags f; f.tol = HUGE_VAL;
   sum<S>(c, m, in, r, f, [&](const GM& g) { if (trbp) S::UpdateRulesType::initializeSpecialParameter(g, p); return new S(g, p); });
}
typedef opengm::BeliefPropagationUpdateRules<GM, ACC> BPR; typedef opengm::TrbpUpdateRules<GM, ACC> TR;
template<class R> struct MP : opengm::MessagePassing<GM, ACC, R, opengm::MaxDistance> { typedef R UpdateRulesType; typedef opengm::MessagePassing<GM, ACC, R, opengm::MaxDistance> B; MP(const GM& g, const typename B::Parameter& p) : B(g, p) {} };
PROP(bp, 260, 6000) { passing<MP<BPR> >(c, "BELIEFPROPAGATION", false); }
PROP(trbp, 260, 6000) { passing<MP<TR> >(c, "TRBP", true); }
PROP(inf_and_flip, 200, 5000) {
   typedef opengm::MessagePassing<GM, ACC, BPR> I; typedef opengm::InfAndFlip<GM, ACC, I> S; Model m = genModel(c, sumOpts(c)); c.note(m.str()); Input in; Run r; r.alg = "INFANDFLIP"; S::Parameter p; p.maxSubgraphSize_ = 2; p.subPara_.maximumNumberOfSteps_ = 1000; p.subPara_.damping_ = 0.5; p.subPara_.bound_ = 0.00001; int how = (int)c.weighted({ 8, 1, 1 }); 
   if (how) { r.add("--inf", how == 1 ? "TRWS" : "FASTPD"); } else r.add("--inf", "LBP"); if (c.flip(0.6)) { p.maxSubgraphSize_ = c.range(0, 4); r.add("--maxsize", std::to_string(p.maxSubgraphSize_)); } if (c.flip(0.8)) { p.subPara_.maximumNumberOfSteps_ = c.range(1, 20); r.add("--maxIt", std::to_string(p.subPara_.maximumNumberOfSteps_)); }
   sum<S>(c, m, in, r, Flags(), [&](const GM& g) { if (how) throw std::runtime_error("not compiled in"); return new S(g, p); });
}
PROP(self_fusion, 200, 5000) {
   typedef opengm::MessagePassing<GM, ACC, BPR, opengm::MaxDistance> I; typedef opengm::SelfFusion<I> S; Model m = genModel(c, sumOpts(c)); c.note(m.str()); Input in; Run r; r.alg = "SelfFusion"; S::Parameter p; p.infParam_.maximumNumberOfSteps_ = 10; p.numStopIt_ = 10; p.infParam_.damping_ = 0.5; p.maxSubgraphSize_ = 2; int how = (int)c.weighted({ 8, 1, 1, 1 }); 
   r.add(c.flip() ? "-i" : "--inf", how == 1 ? "TRWS" : "LBP"); r.add(c.flip() ? "-f" : "--fusion", how == 2 ? "QPBO" : how == 3 ? "ILP" : "LF"); p.fusionSolver_ = S::LazyFlipperFusion; if (c.flip(0.7)) { size_t k = c.range(1, 15); p.infParam_.maximumNumberOfSteps_ = k; r.add("--numIt", std::to_string(k)); } if (c.flip(0.4)) { p.numStopIt_ = c.range(1, 5); r.add("--numStopIt", std::to_string(p.numStopIt_)); }
   if (c.flip(0.4)) { p.infParam_.damping_ = c.pick({ 0.0, 0.25, 0.7 }); r.add("--dampingLBP", num(p.infParam_.damping_)); } if (c.flip(0.4)) { p.maxSubgraphSize_ = c.range(1, 5); r.add("--maxSS", std::to_string(p.maxSubgraphSize_)); }
   Flags f; f.lazy = how > 1; sum<S>(c, m, in, r, f, [&](const GM& g) { if (how) throw std::runtime_error("not compiled in"); return new S(g, p); });
}
