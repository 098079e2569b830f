#include "local.hxx"
#include <opengm/inference/icm.hxx>
template<class G, class ACC> static void icm(Ctx& c, bool mult, bool mx) {
   typedef typename G::All GM; typedef opengm::ICM<GM, ACC> S; Model m = genModel(c, localOpts(c, mult, mx)); c.note(m.str()); auto gm = buildAll<GM>(m); Vec start = genStart(c, m); c.note("start " + pbt::vec(start)); auto type = c.flip() ? S::SINGLE_VARIABLE : S::FACTOR;
   typename S::Parameter p(type); bool viaParam = c.flip(); if (viaParam) p.startPoint_ = start; S s(gm, p); if (!viaParam) s.setStartingPoint(start.begin()); { Vec x = argOf(c, s, m, "start"); CHECK(x == start, "labeling before inference"); CHECK_EQ((double)s.value(), m.value(start, mult), "value before inference"); }
   for (size_t round = 0; round < 1 + c.upTo(1); ++round) {
      if (round) { if (viaParam && c.flip()) s.reset(); else { start = genStart(c, m); s.setStartingPoint(start.begin()); } c.label("again"); }
      Vec x = finish(c, s, m, start, mult, mx, "ICM"); for (size_t v = 0; v < m.n(); ++v) noBetter(c, m, x, start, size_t(1) << v, mult, mx, "single variable"); if (type == S::FACTOR) for (auto& f : m.factors) { size_t mask = 0; for (size_t v : f.vars) mask |= size_t(1) << v; noBetter(c, m, x, start, mask, mult, mx, "factor"); } }
   c.nontrivialIf(m.order() > 1 && m.nConfigs() > 3);
}
PROP(icm, 3000, 100000) { senses(c, [&](auto g, auto a, bool mult, bool mx) { icm<decltype(g), decltype(a)>(c, mult, mx); }); }
