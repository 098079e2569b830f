#include "gen_model.hxx"
#include <opengm/functions/singlesitefunction.hxx>
#include <opengm/functions/fieldofexperts.hxx>
using namespace gen;

template<class F> static void staticHistory(pbt::Ctx& c, size_t N) {
   struct Slot { F f; std::vector<double> v; };
   std::vector<Slot> pool;
   auto write = [&](Slot& s, size_t i) { double v = c.sym(20) / 4.0; size_t l[] = {i}; s.f(l) = v; s.v[i] = v; };
   auto fresh = [&] { Slot s; s.v.assign(N, 0); for (size_t i = 0; i < N; ++i) write(s, i); pool.push_back(s); };
   fresh();
   long steps = c.range(1, 25);
   for (long k = 0; k < steps; ++k) {
      size_t a = c.upTo(pool.size() - 1), b = c.upTo(pool.size() - 1);
      switch (c.upTo(4)) {
      case 0: fresh(); break;
      case 1: { Slot s = pool[a]; pool.push_back(s); c.nontrivial(); break; }
      case 2: pool[a].f = pool[b].f; pool[a].v = pool[b].v; c.nontrivial(); break;
      case 3: write(pool[a], c.upTo(N - 1)); break;
      default: if (pool.size() > 1) pool.erase(pool.begin() + a); break;
      }
      for (Slot& s : pool) { const F& f = s.f; CHECK_EQ(f.size(), N, ""); CHECK_EQ(f.dimension(), (size_t)1, ""); CHECK_EQ(f.shape(0), N, "");
         for (size_t i = 0; i < N; ++i) { size_t l[] = {i}; CHECK_EQ((double)f(l), s.v[i], "label " << i); } 
         CHECK_EQ(f.min(), *std::min_element(s.v.begin(), s.v.end()), "min"); }
   }
}
template<class T, size_t N> using Stack = opengm::StaticSingleSiteFunction<T, N, opengm::StackStorage>;
template<class T, size_t N> using Heap = opengm::StaticSingleSiteFunction<T, N, opengm::HeapStorage>;
PROP(static_stack, 6000, 100000) { if (c.flip()) staticHistory<Stack<double, 3> >(c, 3); else staticHistory<Stack<double, 1> >(c, 1); }
PROP(static_heap, 6000, 100000) { if (c.flip()) staticHistory<Heap<double, 4> >(c, 4); else staticHistory<Heap<double, 1> >(c, 1); }

PROP(dynamic_history, 12000, 200000) {
   typedef opengm::DynamicSingleSiteFunction<double> F;
   struct Slot { F* f; std::vector<double> v; std::vector<char> known; };
   std::vector<Slot> pool;
   struct Clean { std::vector<Slot>& p; ~Clean() { for (auto& s : p) delete s.f; } } clean{pool};
   auto fresh = [&] { size_t n = c.upTo(6); Slot s; if (c.flip()) { double v = c.sym(9); s.f = new F(n, v); s.v.assign(n, v); s.known.assign(n, 1); c.note("new(" + pbt::str(n) + "," + pbt::str(v) + ")"); }
      else { s.f = new F(n); s.v.assign(n, 0); s.known.assign(n, 0); c.note("new(" + pbt::str(n) + ")"); } pool.push_back(s); };
   fresh();
   long steps = c.range(1, 30);
   for (long k = 0; k < steps; ++k) {
      size_t a = c.upTo(pool.size() - 1), b = c.upTo(pool.size() - 1);
      switch (c.upTo(6)) {
      case 0: fresh(); break;
      case 1: { Slot s = pool[a]; s.f = new F(*pool[a].f); pool.push_back(s); c.nontrivial(); c.note("copy " + pbt::str(a)); break; }
      case 2: *pool[a].f = *pool[b].f; pool[a].v = pool[b].v; pool[a].known = pool[b].known; c.nontrivial(); c.note(pbt::str(a) + " = " + pbt::str(b)); break;
      case 3: if (!pool[a].v.empty()) { size_t i = c.upTo(pool[a].v.size() - 1); double v = c.sym(9); if (c.flip()) (*pool[a].f)[i] = v; else { size_t l[] = {i}; (*pool[a].f)(l) = v; } pool[a].v[i] = v; pool[a].known[i] = 1; } break;
      case 4: { size_t n = c.upTo(6); double v = c.sym(9); pool[a].f->assign(n, v); pool[a].v.assign(n, v); pool[a].known.assign(n, 1); c.note(pbt::str(a) + ".assign(" + pbt::str(n) + "," + pbt::str(v) + ")"); break; }
      case 5: { size_t n = c.upTo(6); pool[a].f->assign(n); pool[a].v.assign(n, 0); pool[a].known.assign(n, 0); c.note(pbt::str(a) + ".assign(" + pbt::str(n) + ")"); break; }
      default: if (pool.size() > 1) { delete pool[a].f; pool.erase(pool.begin() + a); } break;
      }
      for (Slot& s : pool) { const F& f = *s.f; CHECK_EQ(f.size(), s.v.size(), "size"); CHECK_EQ(f.shape(0), s.v.size(), "shape"); CHECK_EQ(f.dimension(), (size_t)1, "");
         for (size_t i = 0; i < s.v.size(); ++i) if (s.known[i]) { size_t l[] = {i}; CHECK_EQ(f(l), s.v[i], "label " << i); CHECK_EQ(f[i], s.v[i], ""); } }
   }
}

PROP(field_of_experts, 15000, 200000) {
   typedef opengm::FoEFunction<double> F;
   size_t order = c.range(1, 4), ne = c.range(1, 4), nl = c.range(1, 5);
   DVec e, a; for (size_t i = 0; i < order * ne; ++i) e.push_back(c.sym(12) / 8.0); for (size_t i = 0; i < ne; ++i) a.push_back(c.sym(12) / 8.0);
   c.note("experts " + pbt::vec(e) + " alphas " + pbt::vec(a) + " labels " + pbt::str(nl)); c.nontrivialIf(ne > 1 && order > 1);
   F f1(e, a, nl), f2(e.begin(), a.begin(), nl, order, ne), f3; f3 = f1; F f4(f2);
   CHECK_EQ(f1.dimension(), order, ""); CHECK_EQ(f2.dimension(), order, ""); CHECK_EQ(f1.size(), prodOf(Vec(order, nl)), "size"); CHECK_EQ((size_t)f3.shape(order - 1), nl, "");
   forAll(Vec(order, nl), [&](const Vec& x) {
      double r = 0; for (size_t k = 0; k < ne; ++k) { double d = 0; for (size_t j = 0; j < order; ++j) d += e[k * order + j] * x[j]; r += a[k] * std::log(1 + 0.5 * d * d); }
      CHECK_NEAR(f1(x.begin()), r, 1e-12, pbt::vec(x)); CHECK_NEAR(f2(x.begin()), r, 1e-12, pbt::vec(x)); CHECK_NEAR(f3(x.begin()), r, 1e-12, pbt::vec(x)); CHECK_NEAR(f4(x.begin()), r, 1e-12, pbt::vec(x));
   });
}
// the default field of experts consists of three zero-mean filters on 2x2 patches: it ignores a common offset
PROP(default_field_of_experts, 3000, 40000) {
   opengm::FoEFunction<double> f; f.setDefault(); CHECK_EQ(f.dimension(), (size_t)4, ""); CHECK_EQ((size_t)f.shape(3), (size_t)256, ""); CHECK_EQ(f.size(), (size_t)1 << 32, "size");
   Vec x, y; for (int i = 0; i < 4; ++i) x.push_back(c.upTo(200)); size_t o = c.upTo(55); for (int i = 0; i < 4; ++i) y.push_back(x[i] + o);
   c.note(pbt::vec(x) + " + " + pbt::str(o)); c.nontrivialIf(o > 0 && x[0] != x[1]);
   static const double al[3] = {0.586612685392731, 1.157638405566669, 0.846059486257292};
   static const double ex[3][4] = {{-0.0582774013402734, 0.0339010363051084, -0.0501593018104054, 0.0745568557931712}, {0.0492112815304123, -0.0307820846538285, -0.123247230948424, 0.104812330861557}, {0.0562633568728865, 0.0152832583489560, -0.0576215592718086, -0.0139673758425540}};
   double r = 0; for (int k = 0; k < 3; ++k) { double d = 0; for (int j = 0; j < 4; ++j) d += ex[k][j] * x[j]; r += al[k] * std::log(1 + 0.5 * d * d); }
   CHECK_NEAR(f(x.begin()), r, 1e-12, "");
   CHECK_NEAR(f(y.begin()), r, 2e-3, "common offset changes the value");
}
