// FLAGS: HDF5
// TOOLS: opengm_min_sum
#include "cli.hxx"
#include <opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx>
#include <opengm/inference/dynamicprogramming.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>
#include <opengm/inference/astar.hxx>
using namespace cli;
typedef opengm::Minimizer ACC; typedef SumGM GM;
typedef opengm::DDDualVariableBlock<marray::View<double, false> > Block; typedef opengm::DualDecompositionBase<GM, Block>::SubGmType Sub;
template<class INF> static void sub(Ctx& c, Model& m, Input& in, Run& r, int how) {
   typedef opengm::DualDecompositionSubGradient<GM, INF, Block> S; typename S::Parameter p; p.maximalNumberOfIterations_ = c.pick({ 20, 1, 5 }); r.add("--maxIt", std::to_string(p.maximalNumberOfIterations_)); p.minimalAbsAccuracy_ = 0; p.minimalRelAccuracy_ = 0; p.stepsizeStride_ = p.stepsizeScale_ = 1; p.stepsizeExponent_ = 0.5; p.stepsizeMin_ = 0; p.stepsizeMax_ = HUGE_VAL; p.numberOfBlocks_ = 2; p.numberOfThreads_ = 1; p.k_ = 4;
   auto opt = [&](const char* n, double& v, std::initializer_list<double> vs) { if (c.flip(0.25)) { v = c.pick(vs); r.add(n, num(v)); } }; opt("--absStop", p.minimalAbsAccuracy_, { 0.5, 1e-6 }); opt("--relStop", p.minimalRelAccuracy_, { 0.05, 1e-6 }); opt("--ssStride", p.stepsizeStride_, { 0.1, 2.0 }); opt("--ssScale", p.stepsizeScale_, { 0.1, 3.0 }); opt("--ssExponent", p.stepsizeExponent_, { 1.0, 0.25 }); opt("--ssMin", p.stepsizeMin_, { 0.125, 0.5 }); opt("--ssMax", p.stepsizeMax_, { 0.25, 1.0 });
   int rule = (int)c.upTo(3); if (rule || c.flip()) r.add("--stepsizeRule", rule == 0 ? "ProjectedAdaptive" : rule == 1 ? "Adaptive" : rule == 2 ? "StepLength" : "StepSize"); if (rule == 0) p.useProjectedAdaptiveStepsize_ = true; else if (rule == 1) p.useAdaptiveStepsize_ = true; else { p.stepsizePrimalDualGapStride_ = false; p.stepsizeNormalizedSubgradient_ = rule == 2; }
   int d = how == 2 ? (int)c.upTo(3) : (int)c.upTo(1); if (d || c.flip()) r.add("--decomp", d == 0 ? "Tree" : d == 1 ? "SpanningTrees" : d == 2 ? "Blocks" : "File"); typedef typename S::Parameter P;
   p.decompositionId_ = d == 0 ? P::TREE : d == 1 ? P::SPANNINGTREES : d == 2 ? P::BLOCKS : P::MANUAL; if (d == 2 && c.flip()) { p.numberOfBlocks_ = c.range(1, 3); r.add("--numBlocks", std::to_string(p.numberOfBlocks_)); }
   if (d == 3) { size_t k = c.range(1, 3); std::vector<std::set<size_t> > s(k); for (size_t v = 0; v < m.n(); ++v) { s[c.upTo(k - 1)].insert(v); if (c.flip(0.3)) s[c.upTo(k - 1)].insert(v); } std::ostringstream o; for (size_t i = s.size(); i-- > 0;) if (s[i].empty()) s.erase(s.begin() + i); for (auto& q : s) { for (size_t v : q) o << v << " "; o << "\n"; } p.subVariables_ = s; p.decompositionId_ = P::MANUAL; p.decompositionId_ = opengm::DualDecompositionBaseParameter::MANUALVAROPEN; std::string f = in.d.file("dec"); tool::spit(f, o.str()); r.add("--decompfile", f); c.label("decomposition from a file"); }
   if constexpr (std::is_same<INF, opengm::MessagePassing<Sub, ACC, opengm::BeliefPropagationUpdateRules<Sub, ACC> > >::value) p.subPara_.isAcyclic_ = true;
   sum<S>(c, m, in, r, Flags(), [&](const GM& g) { return new S(g, p); });
}
static Model model(Ctx& c) { Opt o; o.kinds = sumKinds(); if (c.flip(0.2)) o.amp = 1; Model m = genPairwise(c, c.pick({ CHAIN, TREE, GRID, ANY }), true, o).m; c.note(m.str()); return m; }
PROP(dd_dp, 160, 4000) { Model m = model(c); Input in; Run r; r.alg = "DDSubgradient"; r.add("--subInf", "DPTree"); sub<opengm::DynamicProgramming<Sub, ACC> >(c, m, in, r, 0); }
PROP(dd_bp, 160, 4000) { Model m = model(c); Input in; Run r; r.alg = "DDSubgradient"; if (c.flip()) r.add("--subInf", "DPHTree"); sub<opengm::MessagePassing<Sub, ACC, opengm::BeliefPropagationUpdateRules<Sub, ACC> > >(c, m, in, r, 1); }
PROP(dd_astar, 160, 4000) { Model m = model(c); Input in; Run r; r.alg = "DDSubgradient"; r.add("--subInf", "ASTAR"); sub<opengm::AStar<Sub, ACC> >(c, m, in, r, 2); }
PROP(dd_missing, 40, 400) { Model m = model(c); Input in; { auto g = buildAll<SumGMs::All>(m); in.save(c, g); } Run r; r.alg = "DDSubgradient"; r.add("--subInf", c.pick({ "ILP", "GraphCut", "RILP" })); std::string out = in.d.file("r.h5"); c.nontrivial(); tool::Result q = tool::run(in.d, "opengm_min_sum", line(c, in, r, out, size_t(-1)), 20); CHECK(!q.crashed() && q.status != 0, "success with a sub-solver that is not compiled in: " << q.str()); }
