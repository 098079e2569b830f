#include "mview.h"
using namespace d01;
PROP(compositions, 36000, 1200000) {
   Block<int> b(c); marray::View<int, false> v(b.v); MV m = b.m; checkReads(c, v, m, b.mem.data());
   size_t n = c.small(1, 6); for (size_t i = 0; i < n; ++i) { step(c, v, m); checkReads(c, v, m, b.mem.data()); }
   c.nontrivialIf(m.size() >= 4 && n >= 2); c.labelIf(m.dim() == 0, "scalar"); c.labelIf(m.dim() > 4, "many-dimensions"); c.labelIf(v.isSimple(), "simple");
   for (size_t i = 0; i < b.mem.size(); ++i) CHECK_EQ(b.mem[i], (int)i + 1, "memory changed by building views");
}
PROP(const_compositions, 12000, 300000) {
   Block<double> b(c); marray::View<double, true> v(b.v); MV m = b.m; checkReads(c, v, m, b.mem.data());
   { Vec bs, s; for (size_t j = 0; j < m.dim(); ++j) { size_t lo = c.upTo(m.shape[j] - 1); bs.push_back(lo); s.push_back(1 + c.upTo(m.shape[j] - lo - 1)); } CoordinateOrder o = anyOrder(c); marray::View<double, true> w(b.v.constView(bs.begin(), s.begin())), w2(b.v.constView(bs.begin(), s.begin(), o)); checkReads(c, w, m.sub(bs, s, m.order), b.mem.data()); checkReads(c, w2, m.sub(bs, s, o), b.mem.data()); marray::View<double, true> w3; b.v.constView(bs.begin(), s.begin(), o, w3); checkReads(c, w3, m.sub(bs, s, o), b.mem.data()); }
   size_t n = c.small(1, 6); for (size_t i = 0; i < n; ++i) step(c, v, m);
   checkReads(c, v, m, b.mem.data()); c.nontrivialIf(m.size() >= 4);
}
// random walks of iterators
PROP(iterators, 24000, 600000) {
   Block<int> b(c); marray::View<int, false> v(b.v); MV m = b.m; size_t n = c.small(0, 4); for (size_t i = 0; i < n; ++i) step(c, v, m);
   Vec order = m.inIndexOrder(); size_t N = order.size(); const int* mem = b.mem.data(); const marray::View<int, false>& cv = v; (void)cv;
   typedef marray::View<int, false>::iterator It; It it = v.begin(); size_t p = 0; size_t steps = c.range(2, 14);
   for (size_t s = 0; s < steps; ++s) {
      switch (c.upTo(7)) {
         case 0: if (p < N) { if (c.flip(0.5)) ++it; else { It o = it++; CHECK_EQ(o.index(), p, "post-increment value"); CHECK_EQ((size_t)(&*o - mem), order[p], "post-increment element"); } ++p; } break;
         case 1: if (p > 0) { if (c.flip(0.5)) --it; else { It o = it--; CHECK_EQ(o.index(), p, "post-decrement value"); } --p; } break;
         case 2: { std::ptrdiff_t k = c.range(0, N) - (std::ptrdiff_t)p; it += k; p += k; break; }
         case 3: { std::ptrdiff_t k = (std::ptrdiff_t)p - (std::ptrdiff_t)c.range(0, N); it -= k; p -= k; break; }
         case 4: { size_t k = c.upTo(N - p); It o = it + (std::ptrdiff_t)k; CHECK_EQ(o.index(), p + k, "it + n"); if (p + k < N) { CHECK_EQ((size_t)(&*o - mem), order[p + k], "element of it + n"); CHECK_EQ((size_t)(&it[k] - mem), order[p + k], "it[n]"); } CHECK_EQ((std::ptrdiff_t)(o - it), (std::ptrdiff_t)k, "distance"); CHECK((it < o) == (k > 0) && (it <= o) && (o >= it) && (o > it) == (k > 0) && (it == o) == (k == 0) && (it != o) == (k > 0), "iterator comparisons"); break; }
         case 5: { size_t k = c.upTo(p); It o = it - (std::ptrdiff_t)k; CHECK_EQ(o.index(), p - k, "it - n"); if (p - k < N) CHECK_EQ((size_t)(&*o - mem), order[p - k], "element of it - n"); break; }
         case 6: { size_t k = c.upTo(N - 1); it = It(v, k); p = k; break; }
         case 7: { marray::View<int, false>::const_iterator ci(it); CHECK_EQ(ci.index(), p, "const iterator"); if (p < N) CHECK_EQ((size_t)(&*ci - mem), order[p], "const iterator element"); break; }
      }
      CHECK_EQ(it.index(), p, "iterator index in " << m.str()); CHECK_EQ(it.hasMore(), p < N, "hasMore"); CHECK((it == v.end()) == (p == N), "comparison with end");
      if (p < N) { CHECK_EQ((size_t)(&*it - mem), order[p], "iterator element at " << p << " of " << m.str() << "; " << geo(v)); CHECK_EQ((size_t)(it.operator->() - mem), order[p], "arrow"); if (m.dim()) { Vec y(m.dim()); it.coordinate(y.begin()); CHECK(y == coordOf(p, m.shape, m.order), "coordinate " << pbt::vec(y) << " at " << p << " " << geo(v)); } }
   }
   c.nontrivialIf(N >= 3); c.labelIf(!v.isSimple(), "strided");
   if (c.flip(0.3)) { std::vector<int> ref; for (size_t k : order) ref.push_back(b.mem[k]); std::vector<int> keep = b.mem; for (int& x : ref) x = (x * 7919) % 101; { size_t i = 0; for (It q = v.begin(); q != v.end(); ++q) *q = ref[i++]; }
      if (c.flip(0.5)) { std::sort(v.begin(), v.end()); std::sort(ref.begin(), ref.end()); } else { std::reverse(v.begin(), v.end()); std::reverse(ref.begin(), ref.end()); }
      for (size_t i = 0; i < N; ++i) { keep[order[i]] = ref[i]; } CHECK(keep == b.mem, "algorithm through view iterators: " << pbt::vec(b.mem) << " expected " << pbt::vec(keep)); }
}
