#include "zoo.hxx"
#include <opengm/inference/gibbs.hxx>
using namespace zoo;
template<class G, class ACC> static void gibbs(Ctx& c, Flags f) {
   typedef typename G::All GM; typedef opengm::Gibbs<GM, ACC> S; typedef typename S::Parameter P; Opt o = opts(c, f); o.dyadic = true; Model m = genModel(c, o); c.note(m.str()); auto gm = buildAll<GM>(m); std::vector<size_t> x; if (c.flip()) x = start(c, m);
   P p(c.large(0, 300), c.upTo(100), c.flip(0.3), c.pick({0.001, 0.5}), 1.0, c.range(1, 10), c.flip(0.4) ? P::CYCLIC : P::RANDOM, x); size_t seed = c.upTo(1000000); f.tol = 1e-9; f.vtol = 1e-9; f.again = true; f.last = false;
   ZOO<S>(c, m, gm, [&](const GM& g) { srand(seed); return new S(g, p); }, f, "Gibbs");
}
PROP(gibbs_sum, 600, 10000) { Flags f; gibbs<SumGMs, opengm::Minimizer>(c, f); }
PROP(gibbs_product, 600, 10000) { Flags f; f.mult = f.mx = true; gibbs<MulGMs, opengm::Maximizer>(c, f); }
