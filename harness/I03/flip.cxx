#include "local.hxx"
#include <opengm/inference/lazyflipper.hxx>
#include <opengm/inference/icm.hxx>
#include <opengm/inference/infandflip.hxx>
template<class G, class ACC> static void lazy(Ctx& c, bool mult, bool mx) {
   typedef typename G::All GM; typedef opengm::LazyFlipper<GM, ACC> S; Opt o = localOpts(c, mult, mx); Model m = genModel(c, o); c.note(m.str()); auto gm = buildAll<GM>(m); Vec start = genStart(c, m); size_t k = c.small(1, 5); bool bin = true; for (size_t l : m.labels) bin = bin && l == 2; opengm::Tribool multi = c.flip(0.5) ? opengm::Tribool::Maybe : (bin && c.flip()) ? opengm::Tribool::False : opengm::Tribool::True; c.note(pbt::str("start ", pbt::vec(start), " subgraph size ", k));
   bool viaParam = c.flip(); typename S::Parameter p(k, multi); if (viaParam) p.startingPoint_ = start; S s(gm, p); if (!viaParam) s.setStartingPoint(start.begin());
   for (size_t round = 0; round < 1 + c.upTo(1); ++round) { if (round) { start = genStart(c, m); s.setStartingPoint(start.begin()); if (c.flip()) s.setMaxSubgraphSize(k = c.small(1, 5)); c.label("again"); c.note(pbt::str("again from ", pbt::vec(start), " size ", k)); } Vec x = finish(c, s, m, start, mult, mx, "lazy flipper"); allConnected(c, m, x, start, k, mult, mx, "connected set"); }
   c.nontrivialIf(m.order() > 1 && m.nConfigs() > 3);
}
PROP(lazy_flipper, 2500, 80000) { senses(c, [&](auto g, auto a, bool mult, bool mx) { lazy<decltype(g), decltype(a)>(c, mult, mx); }); }
template<class G, class ACC> static void infFlip(Ctx& c, bool mult, bool mx) {
   typedef typename G::All GM; typedef opengm::ICM<GM, ACC> I; typedef opengm::InfAndFlip<GM, ACC, I> S; Model m = genModel(c, localOpts(c, mult, mx)); c.note(m.str()); auto gm = buildAll<GM>(m); Vec start(m.n(), 0); typename S::Parameter p((size_t)c.small(0, 4)); p.warmStartableInf_ = c.flip(); S s(gm, p); bool given = c.flip(); if (given) { start = genStart(c, m); s.setStartingPoint(start.begin()); c.note("start " + pbt::vec(start)); } c.note(pbt::str("subgraph size ", p.maxSubgraphSize_, " warm ", p.warmStartableInf_));
   I sub(gm); if (p.warmStartableInf_) sub.setStartingPoint(start.begin()); sub.infer(); Vec y = argOf(c, sub, m, "ICM"); bool flips = p.maxSubgraphSize_ > 0; if (!flips) start = y;
   std::cout.setstate(std::ios::failbit); Vec x = finish(c, s, m, start, mult, mx, "inf and flip"); std::cout.clear(); CHECK(notWorse(m.value(x, mult), m.value(y, mult), mx), "worse than the labeling of the inner solver"); Vec from = !given || better(m.value(y, mult), m.value(start, mult), mx) ? y : start; if (flips) allConnected(c, m, x, from, p.maxSubgraphSize_, mult, mx, "connected set"); c.nontrivialIf(m.order() > 1 && m.nConfigs() > 3);
}
PROP(inf_and_flip, 2000, 50000) { senses(c, [&](auto g, auto a, bool mult, bool mx) { infFlip<decltype(g), decltype(a)>(c, mult, mx); }); }
