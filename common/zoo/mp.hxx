#include "zoo.hxx"
#include <opengm/inference/messagepassing/messagepassing.hxx>
using namespace zoo;
template<class G, class ACC, template<class, class, class> class RULES> static void mp(Ctx& c, Flags f, const char* what) {
   typedef typename G::All GM; typedef RULES<GM, ACC, opengm::MessageBuffer<marray::Marray<double> > > R; typedef opengm::MessagePassing<GM, ACC, R, opengm::MaxDistance> S; Opt o = opts(c, f); o.tree = c.flip(0.3); Model m = genModel(c, o); c.note(m.str()); auto gm = buildAll<GM>(m);
   typename S::Parameter p(c.range(1, 25), c.flip(0.3) ? 1e-4 : 0.0, c.pick({0.0, 0.0, 0.3, 0.7})); p.useNormalization_ = c.flip(0.8) ? opengm::Tribool::True : opengm::Tribool::False; p.inferSequential_ = c.flip(); p.isAcyclic_ = c.flip() ? opengm::Tribool::Maybe : opengm::Tribool::False; if (c.flip(0.4)) { Vec q = c.perm(m.n()); p.sortedNodeList_.assign(q.begin(), q.end()); } c.labelIf(p.inferSequential_, "sequential");
   if (p.inferSequential_) p.useNormalization_ = opengm::Tribool::True; f.reset = true; f.again = false;
   ZOO<S>(c, m, gm, [&](const GM& g) { return new S(g, p); }, f, what);
}
#ifndef MP_TRBP
#define MP_RULES opengm::BeliefPropagationUpdateRules
#define MP_NAME "BeliefPropagation"
PROP(bp_sum, 400, 10000) { Flags f; mp<SumGMs, opengm::Minimizer, MP_RULES>(c, f, MP_NAME); }
PROP(bp_product, 400, 10000) { Flags f; f.mult = f.mx = true; mp<MulGMs, opengm::Maximizer, MP_RULES>(c, f, MP_NAME); }
#else
#define MP_RULES opengm::TrbpUpdateRules
#define MP_NAME "TRBP"
PROP(trbp_sum, 400, 10000) { Flags f; mp<SumGMs, opengm::Minimizer, MP_RULES>(c, f, MP_NAME); }
PROP(trbp_product, 400, 10000) { Flags f; f.mult = f.mx = true; mp<MulGMs, opengm::Maximizer, MP_RULES>(c, f, MP_NAME); }
#endif
