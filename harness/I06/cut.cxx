#include "pbt.hxx"
#include <cassert>
#include <queue>
#include <opengm/inference/auxiliary/minstcutboost.hxx>
using pbt::Ctx;

struct E { size_t a, b; long c; };
template<class N, class V, opengm::BoostMaxFlowAlgorithm A> void test(Ctx& c, double unit, const char* name) {
   size_t n = 2 + (size_t)c.range(0, c.flip(0.2) ? 9 : 5), m = (size_t)c.range(0, 4 * n); std::vector<E> es; long top = c.flip(0.3) ? 2 : c.flip() ? 20 : 2000; int shape = c.upTo(3);
   for (size_t i = 0; i < m; ++i) { E e; e.a = c.upTo(n - 1); e.b = c.upTo(n - 2); if (e.b >= e.a) ++e.b; if (shape == 0 && e.b == 0) std::swap(e.a, e.b); if (shape == 0 && e.a == 1) std::swap(e.a, e.b); if (shape > 1) { int t = c.upTo(3); if (t == 1 && e.b != 0) e.a = 0; if (t == 2 && e.a != 1) e.b = 1; } e.c = c.range(0, top); es.push_back(e); if (es.size() > 1 && c.flip(0.15)) { es.back().a = es[es.size() - 2].a; es.back().b = es[es.size() - 2].b; if (c.flip()) std::swap(es.back().a, es.back().b); } }
   std::ostringstream o; o << name << " nodes=" << n; for (auto& e : es) o << " " << e.a << "->" << e.b << ":" << e.c; c.note(o.str()); 
   opengm::MinSTCutBoost<N, V, A> g(n, es.size()); for (auto& e : es) g.addEdge((N)e.a, (N)e.b, (V)(e.c * unit));
   long best = -1; size_t distinct = 0; for (size_t k = 0; k < (size_t(1) << (n - 2)); ++k) { size_t side = k << 2 | 2; long v = 0; for (auto& e : es) if (!(side >> e.a & 1) && (side >> e.b & 1)) v += e.c; if (best < 0 || v < best) { best = v; distinct = 1; } else if (v == best) ++distinct; }
   size_t rounds = 1 + c.upTo(1); std::vector<bool> seg; if (c.flip(0.3)) { size_t k = c.upTo(n + 2); for (size_t i = 0; i < k; ++i) seg.push_back(c.flip()); }
   for (size_t r = 0; r < rounds; ++r) {
      g.calculateCut(seg); CHECK_EQ(seg.size(), n, "one side per node"); long v = 0; auto side = [&](size_t x) { return x == 0 ? false : x == 1 ? true : (bool)seg[x]; }; for (auto& e : es) if (!side(e.a) && side(e.b)) v += e.c;
      CHECK_EQ(v, best, "capacity of the cut" << (r ? " of the second run" : ""));
   }
   c.label(name); c.labelIf(rounds > 1, "again"); c.labelIf(distinct == 1, "unique"); c.nontrivialIf(best > 0 && n > 3);
}
using namespace opengm;
PROP(min_cut, 20000, 1500000) {
   switch (c.upTo(8)) {
      case 0: test<size_t, double, PUSH_RELABEL>(c, 0.125, "push-relabel double"); break;
      case 1: test<size_t, long, PUSH_RELABEL>(c, 1, "push-relabel long"); break;
      case 2: test<int, int, PUSH_RELABEL>(c, 1, "push-relabel int"); break;
      case 3: test<size_t, double, EDMONDS_KARP>(c, 0.125, "edmonds-karp double"); break;
      case 4: test<size_t, int, EDMONDS_KARP>(c, 1, "edmonds-karp int"); break;
      case 5: test<int, float, EDMONDS_KARP>(c, 0.5, "edmonds-karp float"); break;
      case 6: test<size_t, double, KOLMOGOROV>(c, 0.125, "kolmogorov double"); break;
      case 7: test<size_t, long, KOLMOGOROV>(c, 1, "kolmogorov long"); break;
      default: test<int, float, KOLMOGOROV>(c, 0.5, "kolmogorov float"); break;
   }
}
