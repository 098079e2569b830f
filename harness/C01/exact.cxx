// FLAGS: HDF5
// TOOLS: opengm_min_sum
#include "cli.hxx"
#include <opengm/inference/icm.hxx>
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/astar.hxx>
#include <opengm/inference/lazyflipper.hxx>
#include <opengm/inference/greedygremlin.hxx>
#include <opengm/inference/partition-move.hxx>
using namespace cli;
typedef opengm::Minimizer ACC; typedef SumGM GM;
PROP(icm, 260, 6000) {
   typedef opengm::ICM<GM, ACC> S; Model m = genModel(c, sumOpts(c)); c.note(m.str()); Input in; Run r; r.alg = "ICM"; S::Parameter p; if (c.flip(0.7)) { Vec x = start(c, m); p.startPoint_ = x; r.add(c.flip() ? "-x0" : "--startingpoint", in.vector(c, "x0", x)); }
   sum<S>(c, m, in, r, Flags(), [&](const GM& g) { return new S(g, p); });
}
PROP(bruteforce, 160, 4000) {
   typedef opengm::Bruteforce<GM, ACC> S; Model m = genModel(c, sumOpts(c)); c.note(m.str()); Input in; Run r; r.alg = "BRUTEFORCE"; Flags f; f.exact = true; sum<S>(c, m, in, r, f, [&](const GM& g) { return new S(g); });
}
PROP(astar, 260, 6000) {
   typedef opengm::AStar<GM, ACC> S; Opt o = sumOpts(c); Model m = genModel(c, o); c.note(m.str()); Input in; Run r; r.alg = "ASTAR"; Flags f; f.exact = true; S::Parameter p; size_t h = c.upTo(3); if (h) r.add("--heuristic", h == 1 ? "DEFAULT" : h == 2 ? "FAST" : "STANDARD"); p.heuristic_ = h < 2 ? S::Parameter::DEFAULTHEURISTIC : h == 2 ? S::Parameter::FASTHEURISTIC : S::Parameter::STANDARDHEURISTIC;
   if (h == 2 && m.order() > 2) { h = 3; r.opts[0][1] = "STANDARD"; p.heuristic_ = S::Parameter::STANDARDHEURISTIC; } if (c.flip(0.3)) { p.numberOfOpt_ = c.range(1, 3); r.add("--numopt", std::to_string(p.numberOfOpt_)); } if (c.flip(0.3)) { Vec q = c.perm(m.n()); p.nodeOrder_ = q; r.add("--nodeorder", in.vector(c, "order", q)); }
   if (c.flip(0.2)) { p.maxHeapSize_ = 100000; r.add("--maxheapsize", "100000"); }
   if (p.numberOfOpt_ > 1) f.tol = HUGE_VAL; /* the bound of the last solution */ sum<S>(c, m, in, r, f, [&](const GM& g) { return new S(g, p); });
}
PROP(lazy_flipper, 260, 6000) {
   typedef opengm::LazyFlipper<GM, ACC> S; Model m = genModel(c, sumOpts(c)); c.note(m.str()); Input in; Run r; r.alg = "LAZYFLIPPER"; S::Parameter p; if (c.flip(0.7)) { p.maxSubgraphSize_ = c.range(1, 6); r.add("--maxsize", std::to_string(p.maxSubgraphSize_)); } if (c.flip(0.5)) { Vec x = start(c, m); p.startingPoint_ = x; r.add("-x0", in.vector(c, "x0", x)); }
   Flags f; f.exact = p.maxSubgraphSize_ >= m.n(); f.exact = false; sum<S>(c, m, in, r, f, [&](const GM& g) { return new S(g, p); });
}
PROP(gremlin, 160, 4000) {
   typedef opengm::GreedyGremlin<GM, ACC> S; Model m = genModel(c, sumOpts(c)); c.note(m.str()); Input in; Run r; r.alg = "GreedyGremlin"; sum<S>(c, m, in, r, Flags(), [&](const GM& g) { return new S(g); });
}
PROP(partition_move, 160, 4000) {
   typedef opengm::PartitionMove<GM, ACC> S; Model m; size_t n = c.range(1, 4), L = c.range((long)n, 5); m.labels.assign(n, L); size_t k = c.upTo(8); for (size_t i = 0; i < k && n > 1; ++i) { Func q; q.kind = c.flip() ? POTTS : POTTSN; q.shape = Vec(2, L); q.p = { (double)c.sym(3), (double)c.sym(6) }; Factor fa; fa.vars = c.subset(n, 2); fa.f = m.funcs.size(); m.funcs.push_back(q); m.factors.push_back(fa); } c.note(m.str());
   Input in; Run r; r.alg = "PARTITIONMOVE"; sum<S>(c, m, in, r, Flags(), [&](const GM& g) { return new S(g); });
}
