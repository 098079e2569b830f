// FLAGS: HDF5
#include "hdf5.h"
#include <opengm/graphicalmodel/space/simplediscretespace.hxx>
#include <opengm/graphicalmodel/space/static_simplediscretespace.hxx>
template<class GM, class V> static void trip(pbt::Ctx& c, Opt o, V conv) {
   (void)conv; o.kinds = { EXPL }; Model m = genModel(c, o); for (auto& f : m.funcs) for (double& v : f.p) v = (double)conv(v); hdf5Trip<GM, GM>(c, m, 0);
}
PROP(integers, 1200, 30000) {
   Opt o = opts(c); o.dyadic = false; o.amp = 20;
   switch (c.upTo(3)) {
   case 0: c.label("int"); trip<GMs<int, opengm::Adder>::Expl>(c, o, [](double v) { return (int)v; }); break;
   case 1: c.label("unsigned long"); trip<GMs<unsigned long, opengm::Adder>::Expl>(c, o, [](double v) { return (unsigned long)std::fabs(v); }); break;
   case 2: { c.label("large int64"); trip<GMs<long, opengm::Maximizer>::Expl>(c, o, [](double v) { return (double)((long)v * (1l << 45)); }); break; }
   default: c.label("unsigned char"); trip<GMs<unsigned char, opengm::Maximizer>::Expl>(c, o, [](double v) { return (unsigned char)std::fabs(v); }); }
}
template<class S> struct WithSpace { typedef opengm::GraphicalModel<double, opengm::Adder, typename Types<double, size_t, size_t>::Only, S> GM; };
PROP(simple_space, 800, 20000) {
   typedef WithSpace<opengm::SimpleDiscreteSpace<size_t, size_t> >::GM GM; typedef WithSpace<opengm::StaticSimpleDiscreteSpace<3, size_t, size_t> >::GM GS;
   Opt o = opts(c); o.kinds = { EXPL }; o.uniformLabels = true; bool st = c.flip(); if (st) o.minLabels = o.maxLabels = 3; Model m = genModel(c, o); if (st) c.label("static"); c.note(m.str()); c.nontrivialIf(m.factors.size() > 1 && m.order() > 1);
   typedef SumGMs::Expl GD; TempFile f; GD d = buildExplicit<GD>(m);
   auto go = [&](auto& a, auto& b) { fillExplicit(a, m); opengm::hdf5::save(a, f.path, "gm"); opengm::hdf5::load(b, f.path, "gm"); sameModel(c, a, b, m, 1e-12); GD e; opengm::hdf5::load(e, f.path, "gm"); sameModel(c, d, e, m, 1e-12); };
   if (st) { GS a(opengm::StaticSimpleDiscreteSpace<3, size_t, size_t>(m.n())), b; go(a, b); } else { GM a(opengm::SimpleDiscreteSpace<size_t, size_t>(m.n(), m.labels[0])), b; go(a, b); }
}
