#include "mview.h"
using namespace d01;
// small pseudo-random values from one choice
template<class T> void fillMem(pbt::Ctx& c, std::vector<T>& mem, bool nonzero) { uint64_t s = c.upTo(1 << 16); for (size_t i = 0; i < mem.size(); ++i) { int k = (int)(pbt::mix(s + i) % 17) - 8; if (nonzero && !k) k = 3; mem[i] = std::is_floating_point<T>::value ? T(k / 2.0) : T(k); } }
template<class T> std::string memStr(const std::vector<T>& m) { return pbt::vec(m); }
template<class T> void same(pbt::Ctx& c, const std::vector<T>& got, const std::vector<T>& want, const std::string& what) { for (size_t i = 0; i < got.size(); ++i) if (!(got[i] == want[i])) { c.fail(pbt::str(what, ": element ", i, " is ", got[i], " expected ", want[i], "; memory ", memStr(got), " expected ", memStr(want))); } }
// two same-shape views of one block (possibly overlapping)
template<class T> void twin(pbt::Ctx& c, Block<T>& b, marray::View<T, false>& v, MV& m, marray::View<T, false>& w, MV& n) {
   Vec s, b1, b2; for (size_t j = 0; j < b.m.dim(); ++j) { size_t k = 1 + c.upTo(b.m.shape[j] - 1); s.push_back(k); b1.push_back(c.upTo(b.m.shape[j] - k)); b2.push_back(c.flip(0.4) ? b1.back() : c.upTo(b.m.shape[j] - k)); }
   CoordinateOrder o1 = anyOrder(c), o2 = anyOrder(c); b.v.view(b1.begin(), s.begin(), o1, v); m = b.m.sub(b1, s, o1); b.v.view(b2.begin(), s.begin(), o2, w); n = b.m.sub(b2, s, o2);
   Vec p = c.perm(s.size()); if (c.flip(0.5)) { bool ok = true; for (size_t j = 0; j < s.size(); ++j) if (s[p[j]] != s[j]) ok = false; if (ok) { w.permute(p.begin()); n = n.permuted(p); } }
   c.note(pbt::str("target ", m.str(), "\nsource ", n.str()));
}
template<class T, class U> void compound(pbt::Ctx& c, marray::View<T, false>& v, const MV& m, std::vector<T>& mem, std::vector<T> want, const marray::View<U, false>& w, const MV& n, const std::vector<U>& wmem) {
   std::vector<U> src; Vec x(m.dim(), 0); Vec tgt; do { tgt.push_back(m.at(x)); src.push_back(wmem[n.at(x)]); } while (nextC(x, m.shape));
   int op = c.upTo(4); const char* names[] = {"=", "+=", "-=", "*=", "/="}; c.note(pbt::str("operation ", names[op]));
   marray::View<U, true> cw(w); bool k = c.flip(0.3);
   for (size_t i = 0; i < tgt.size(); ++i) switch (op) { case 0: want[tgt[i]] = (T)src[i]; break; case 1: want[tgt[i]] += src[i]; break; case 2: want[tgt[i]] -= src[i]; break; case 3: want[tgt[i]] *= src[i]; break; case 4: want[tgt[i]] /= src[i]; break; }
   switch (op) { case 0: if (k) v = cw; else v = w; break; case 1: if (k) v += cw; else v += w; break; case 2: if (k) v -= cw; else v -= w; break; case 3: if (k) v *= cw; else v *= w; break; case 4: if (k) v /= cw; else v /= w; break; }
   same(c, mem, want, pbt::str(names[op], " of ", n.str(), " to ", m.str()));
}
template<class T> void scalarOps(pbt::Ctx& c, marray::View<T, false>& v, const MV& m, std::vector<T>& mem) {
   std::vector<T> want = mem; int k = (int)c.range(1, 9); double d = c.sym(9) / 2.0; if (d == 0) d = 2.5; size_t op = c.upTo(13); std::string what;
   auto each = [&](std::function<void(T&)> f) { for (size_t i : m.cell) f(want[i]); };
   switch (op) {
      case 0: each([&](T& x) { x = T(k); }); v = T(k); what = "= scalar"; break;
      case 1: each([&](T& x) { x += T(k); }); v += k; what = "+= int"; break;
      case 2: each([&](T& x) { x -= T(k); }); v -= (unsigned char)k; what = "-= unsigned char"; break;
      case 3: each([&](T& x) { x *= T(k); }); v *= (long)k; what = "*= long"; break;
      case 4: each([&](T& x) { x /= T(k); }); v /= (short)k; what = "/= short"; break;
      case 5: each([&](T& x) { x += T(d); }); v += d; what = "+= double"; break;
      case 6: each([&](T& x) { x *= T(d); }); v *= (float)d; what = "*= float"; break;
      case 7: each([&](T& x) { ++x; }); ++v; what = "++"; break;
      case 8: each([&](T& x) { --x; }); --v; what = "--"; break;
      case 9: { size_t i = c.upTo(m.size() - 1); want[m.atIndex(i)] = T(k); v(i) = T(k); what = "write by index"; break; }
      case 10: { size_t i = c.upTo(m.size() - 1); Vec x = coordOf(i, m.shape, m.order); if (m.dim()) { want[m.at(x)] = T(k); v(x.begin()) = T(k); } what = "write by coordinates"; break; }
      case 11: { size_t i = 0; for (auto it = v.begin(); it.hasMore(); ++it, ++i) *it = T(i % 50); for (size_t j = 0; j < m.size(); ++j) want[m.atIndex(j)] = T(j % 50); what = "write by iterator"; break; }
      case 12: { marray::Marray<T> s(T((T)k)); marray::View<T, false> sv(s); for (size_t i : m.cell) want[i] += T(k); v += sv; what = "+= zero-dimensional array"; break; }
      case 13: { if (m.dim() == 2) { size_t a = c.upTo(m.shape[0] - 1), b = c.upTo(m.shape[1] - 1); want[m.at(Vec{a, b})] = T(k); v(a, b) = T(k); } else if (m.dim() == 3) { size_t a = c.upTo(m.shape[0] - 1), b = c.upTo(m.shape[1] - 1), e = c.upTo(m.shape[2] - 1); want[m.at(Vec{a, b, e})] = T(k); v(a, b, e) = T(k); } what = "write by coordinate list"; break; }
   }
   c.label(what); same(c, mem, want, what + " on " + m.str());
}
template<class T> void scalarCase(pbt::Ctx& c) {
   Block<T> b(c, 4, 4, 160); marray::View<T, false> v(b.v); MV m = b.m; size_t k = c.small(0, 4); for (size_t i = 0; i < k; ++i) step(c, v, m);
   c.note(m.str()); size_t ops = c.range(1, 4); for (size_t i = 0; i < ops; ++i) { fillMem(c, b.mem, false); scalarOps(c, v, m, b.mem); } c.nontrivialIf(m.size() >= 3);
}
PROP(scalar_operations_int, 18000, 600000) { scalarCase<int>(c); }
PROP(scalar_operations_double, 12000, 300000) { scalarCase<double>(c); }
// same block: aliasing
template<class T> void aliased(pbt::Ctx& c) {
   Block<T> b(c, 3, 5, 160); fillMem(c, b.mem, true); marray::View<T, false> v, w; MV m, n; twin(c, b, v, m, w, n);
   bool sh = m.shares(n); c.nontrivialIf(m.size() >= 2); c.labelIf(sh, "sharing elements"); if (sh) CHECK(v.overlaps(w) && w.overlaps(v), "overlaps() is false for views that share an element: " << m.str() << " " << n.str());
   compound<T, T>(c, v, m, b.mem, b.mem, w, n, b.mem);
}
PROP(aliased_int, 18000, 600000) { aliased<int>(c); }
PROP(aliased_double, 12000, 300000) { aliased<double>(c); }
// different blocks, possibly different types; arbitrary chains of transformations on both sides
template<class T, class U> void separate(pbt::Ctx& c) {
   Block<T> b(c, 4, 4, 120); marray::View<T, false> v(b.v); MV m = b.m; size_t k = c.small(0, 3); for (size_t i = 0; i < k; ++i) step(c, v, m);
   Vec big; for (size_t j = 0; j < m.dim(); ++j) big.push_back(m.shape[j] + c.upTo(1)); if (big.empty()) big.push_back(1); Vec p = c.perm(big.size()); Vec pb(big.size()); for (size_t j = 0; j < p.size(); ++j) pb[p[j]] = big[j];
   Block<U> a(c, pb); marray::View<U, false> w(a.v); MV n = a.m; w.permute(p.begin()); n = n.permuted(p);
   if (m.dim()) { Vec base; for (size_t j = 0; j < big.size(); ++j) base.push_back(c.upTo(big[j] - m.shape[j])); CoordinateOrder o = anyOrder(c); marray::View<U, false> z(w.view(base.begin(), m.shape.begin(), o)); w.assign(); w = z; n = n.sub(base, m.shape, o); } else { w.squeeze(); n = n.squeezed(); }
   fillMem(c, b.mem, true); fillMem(c, a.mem, true); std::vector<U> keep = a.mem; c.note(pbt::str("target ", m.str(), "\nsource ", n.str())); c.nontrivialIf(m.size() >= 2); c.labelIf(m.dim() > 10, "more than ten dimensions");
   CHECK(!v.overlaps(w), "overlaps() is true for separate memory"); compound<T, U>(c, v, m, b.mem, b.mem, w, n, a.mem); same(c, a.mem, keep, "the source changed");
}
PROP(separate_int_int, 15000, 450000) { separate<int, int>(c); }
PROP(separate_double_int, 9000, 240000) { separate<double, int>(c); }
PROP(separate_int_double, 9000, 240000) { separate<int, double>(c); }
PROP(separate_float_short, 6000, 150000) { separate<float, short>(c); }
