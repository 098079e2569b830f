#include "pbt.hxx"
#include <typeinfo>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/operations/and.hxx>
#include <opengm/operations/or.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/sparsemarray.hxx>
#include <opengm/inference/sat.hxx>
using pbt::Ctx;

struct Cl { size_t a, b; int table; }; // bit (xa + 2 xb) of table: satisfied
template<class GM, class F> void test(Ctx& c, const char* name) {
   typedef typename GM::IndexType I; typedef typename GM::LabelType L; typedef opengm::SAT<GM> S;
   size_t n = 2 + c.upTo(c.flip(0.2) ? 8 : 5); int shape = c.upTo(3); size_t m = shape == 0 ? (size_t)c.range(0, n) : shape == 1 ? (size_t)c.range(n, 2 * n) : (size_t)c.range(0, 3 * n); std::vector<Cl> cl;
   for (size_t k = 0; k < m; ++k) { auto s = c.subset(n, 2); Cl x; x.a = s[0]; x.b = s[1]; x.table = shape < 2 || c.flip(0.7) ? 15 & ~(1 << c.upTo(3)) : c.upTo(15); cl.push_back(x); }
   std::ostringstream o; o << name << " variables=" << n; for (auto& x : cl) { o << " (" << x.a << "," << x.b << ":"; for (int k = 0; k < 4; ++k) o << (x.table >> k & 1); o << ")"; } c.note(o.str());
   std::vector<L> labels(n, 2); GM gm(typename GM::SpaceType(labels.begin(), labels.end())); L sh[] = {2, 2};
   for (auto& x : cl) { F f(sh, sh + 2); for (int k = 0; k < 4; ++k) { L l[] = {(L)(k & 1), (L)(k >> 1)}; f(l) = x.table >> k & 1; } I v[] = {(I)x.a, (I)x.b}; gm.addFactor(gm.addFunction(f), v, v + 2); }
   bool sat = false; size_t count = 0; std::vector<L> l(n); for (size_t k = 0; k < (size_t(1) << n); ++k) { bool ok = true; for (auto& x : cl) ok = ok && (x.table >> ((k >> x.a & 1) + 2 * (k >> x.b & 1)) & 1); for (size_t i = 0; i < n; ++i) l[i] = k >> i & 1; CHECK_EQ((bool)gm.evaluate(l.begin()), ok, "conjunction at labeling " << k); sat = sat || ok; count += ok; }
   S s(gm); size_t rounds = 1 + c.upTo(1); for (size_t r = 0; r < rounds; ++r) { if (r && c.flip()) s.reset(); CHECK(s.infer() == opengm::NORMAL, "terminates normally"); CHECK_EQ((bool)s.value(), sat, "satisfiability"); }
   c.label(name); c.label(sat ? "satisfiable" : "unsatisfiable"); c.nontrivialIf(cl.size() > 2 && (!sat || count * 8 <= (size_t(1) << n)));
}
typedef opengm::GraphicalModel<bool, opengm::And, opengm::ExplicitFunction<bool>, opengm::DiscreteSpace<> > G1;
typedef opengm::GraphicalModel<bool, opengm::And, opengm::ExplicitFunction<bool, unsigned, unsigned char>, opengm::DiscreteSpace<unsigned, unsigned char> > G2;
PROP(two_sat, 8000, 400000) { if (c.flip()) test<G1, opengm::ExplicitFunction<bool> >(c, "size_t"); else test<G2, opengm::ExplicitFunction<bool, unsigned, unsigned char> >(c, "uchar"); }
PROP(order_rejected, 300, 5000) {
   size_t n = 3; std::vector<size_t> labels(n, 2); G1 gm(G1::SpaceType(labels.begin(), labels.end())); size_t k = c.pick({1, 3}); opengm::ExplicitFunction<bool> f(labels.begin(), labels.begin() + k, true); auto v = c.subset(n, k); 
   if (c.flip()) { opengm::ExplicitFunction<bool> g(labels.begin(), labels.begin() + 2, true); size_t w[] = {0, 1}; gm.addFactor(gm.addFunction(g), w, w + 2); c.label("after a clause"); }
   gm.addFactor(gm.addFunction(f), v.begin(), v.end()); c.note(pbt::str("order ", k)); c.nontrivial(); bool thrown = false; try { opengm::SAT<G1> s(gm); s.infer(); } catch (std::runtime_error&) { thrown = true; } CHECK(thrown, "a factor of order " << k << " is rejected");
}
