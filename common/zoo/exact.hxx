#include "zoo.hxx"
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/astar.hxx>
#include <opengm/inference/dynamicprogramming.hxx>
using namespace zoo;
template<class G, class ACC> static void brute(Ctx& c, Flags f) {
   typedef typename G::All GM; typedef opengm::Bruteforce<GM, ACC> S; Opt o = opts(c, f); o.maxConfigs = 200; Model m = genModel(c, o); c.note(m.str()); auto gm = buildAll<GM>(m); typename S::Parameter p; f.reset = true;
   ZOO<S>(c, m, gm, [&](const GM& g) { return new S(g, p); }, f, "Bruteforce");
}
PROP(bruteforce, 800, 20000) { senses(c, [&](auto g, auto a, Flags f) { brute<decltype(g), decltype(a)>(c, f); }); }
template<class G, class ACC> static void astar(Ctx& c, Flags f) {
   typedef typename G::All GM; typedef opengm::AStar<GM, ACC> S; Opt o = opts(c, f); o.maxConfigs = 300; o.dyadic = true; Model m = genModel(c, o); c.note(m.str()); auto gm = buildAll<GM>(m); typename S::Parameter p; f.reset = true; f.early = false; f.stops = true;
   if (c.flip()) p.nodeOrder_ = c.perm(m.n()); if (c.flip(0.3)) p.heuristic_ = S::Parameter::STANDARDHEURISTIC;
   ZOO<S>(c, m, gm, [&](const GM& g) { return new S(g, p); }, f, "AStar");
}
PROP(astar, 800, 20000) { senses(c, [&](auto g, auto a, Flags f) { astar<decltype(g), decltype(a)>(c, f); }); }
template<class G, class ACC> static void dp(Ctx& c, Flags f) {
   typedef typename G::All GM; typedef opengm::DynamicProgramming<GM, ACC> S; Opt o = opts(c, f); o.tree = true; o.maxOrder = 2; Model m = genModel(c, o); c.note(m.str()); auto gm = buildAll<GM>(m); typename S::Parameter p; f.early = false;
   ZOO<S>(c, m, gm, [&](const GM& g) { return new S(g, p); }, f, "DynamicProgramming");
}
PROP(dynamic_programming, 1000, 20000) { senses(c, [&](auto g, auto a, Flags f) { dp<decltype(g), decltype(a)>(c, f); }); }
