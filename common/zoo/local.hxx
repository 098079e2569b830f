#include "zoo.hxx"
#include <opengm/inference/icm.hxx>
#include <opengm/inference/lazyflipper.hxx>
#include <opengm/inference/infandflip.hxx>
#include <opengm/inference/greedygremlin.hxx>
using namespace zoo;
template<class G, class ACC> static void icm(Ctx& c, Flags f) {
   typedef typename G::All GM; typedef opengm::ICM<GM, ACC> S; Model m = genModel(c, opts(c, f)); c.note(m.str()); auto gm = buildAll<GM>(m); typename S::Parameter p(c.flip() ? S::SINGLE_VARIABLE : S::FACTOR); if (c.flip()) p.startPoint_ = start(c, m); f.reset = true;
   ZOO<S>(c, m, gm, [&](const GM& g) { return new S(g, p); }, f, "ICM");
}
PROP(icm, 1500, 40000) { senses(c, [&](auto g, auto a, Flags f) { icm<decltype(g), decltype(a)>(c, f); }); }
template<class G, class ACC> static void lazy(Ctx& c, Flags f) {
   typedef typename G::All GM; typedef opengm::LazyFlipper<GM, ACC> S; Model m = genModel(c, opts(c, f)); c.note(m.str()); auto gm = buildAll<GM>(m); typename S::Parameter p((size_t)c.small(1, 5)); if (c.flip()) p.startingPoint_ = start(c, m); f.reset = true;
   ZOO<S>(c, m, gm, [&](const GM& g) { return new S(g, p); }, f, "LazyFlipper");
}
PROP(lazy_flipper, 1200, 30000) { senses(c, [&](auto g, auto a, Flags f) { lazy<decltype(g), decltype(a)>(c, f); }); }
template<class G, class ACC> static void infFlip(Ctx& c, Flags f) {
   typedef typename G::All GM; typedef opengm::ICM<GM, ACC> I; typedef opengm::InfAndFlip<GM, ACC, I> S; Model m = genModel(c, opts(c, f)); c.note(m.str()); auto gm = buildAll<GM>(m); typename S::Parameter p((size_t)c.small(0, 4)); p.warmStartableInf_ = c.flip(); bool given = c.flip(); std::vector<size_t> st = start(c, m); f.reset = true;
   ZOO<S>(c, m, gm, [&](const GM& g) { S* s = new S(g, p); if (given) s->setStartingPoint(st.begin()); return s; }, f, "InfAndFlip");
}
PROP(inf_and_flip, 1200, 30000) { senses(c, [&](auto g, auto a, Flags f) { infFlip<decltype(g), decltype(a)>(c, f); }); }
template<class G, class ACC> static void gremlin(Ctx& c, Flags f) {
   typedef typename G::All GM; typedef opengm::GreedyGremlin<GM, ACC> S; Model m = genModel(c, opts(c, f)); c.note(m.str()); auto gm = buildAll<GM>(m); typename S::Parameter p; f.reset = true; f.better = false;
   ZOO<S>(c, m, gm, [&](const GM& g) { return new S(g, p); }, f, "GreedyGremlin");
}
PROP(greedy_gremlin, 1200, 30000) { senses(c, [&](auto g, auto a, Flags f) { gremlin<decltype(g), decltype(a)>(c, f); }); }
