// Reference model of a view: shape, coordinate order and, for every coordinate
// (enumerated first coordinate fastest), the index of the parent element.
#pragma once
#include "pbt.hxx"
#include <opengm/datastructures/marray/marray.hxx>
#include <vector>
#include <numeric>
namespace d01 {
typedef std::vector<size_t> Vec;
using marray::CoordinateOrder; using marray::FirstMajorOrder; using marray::LastMajorOrder;
inline size_t prod(const Vec& s) { size_t p = 1; for (size_t x : s) p *= x; return p; }
inline bool nextC(Vec& x, const Vec& s) { for (size_t j = 0; j < s.size(); ++j) { if (++x[j] < s[j]) return true; x[j] = 0; } return false; }
inline size_t lastMajor(const Vec& x, const Vec& s) { size_t i = 0, m = 1; for (size_t j = 0; j < s.size(); ++j) { i += x[j] * m; m *= s[j]; } return i; }
inline size_t firstMajor(const Vec& x, const Vec& s) { size_t i = 0, m = 1; for (size_t j = s.size(); j-- > 0;) { i += x[j] * m; m *= s[j]; } return i; }
inline Vec coordOf(size_t i, const Vec& s, CoordinateOrder o) {
   Vec x(s.size()); if (o == LastMajorOrder) for (size_t j = 0; j < s.size(); ++j) { x[j] = i % s[j]; i /= s[j]; } else for (size_t j = s.size(); j-- > 0;) { x[j] = i % s[j]; i /= s[j]; } return x;
}
struct MV {
   Vec shape, cell; CoordinateOrder order;
   size_t size() const { return cell.size(); } size_t dim() const { return shape.size(); }
   size_t at(const Vec& x) const { return cell[lastMajor(x, shape)]; }
   size_t atIndex(size_t i) const { return at(coordOf(i, shape, order)); }
   Vec inIndexOrder() const { Vec r(size()); for (size_t i = 0; i < r.size(); ++i) r[i] = atIndex(i); return r; }
   template<class F> static MV make(const Vec& s, CoordinateOrder o, F cellOf) { MV v; v.shape = s; v.order = o; v.cell.resize(prod(s)); Vec x(s.size(), 0); size_t i = 0; do { v.cell[i++] = cellOf(x); } while (nextC(x, s)); return v; }
   MV sub(const Vec& b, const Vec& s, CoordinateOrder o) const { return make(s, o, [&](const Vec& x) { Vec y(x); for (size_t j = 0; j < y.size(); ++j) y[j] += b[j]; return at(y); }); }
   MV permuted(const Vec& p) const { Vec s(dim()); for (size_t j = 0; j < dim(); ++j) s[j] = shape[p[j]]; return make(s, order, [&](const Vec& x) { Vec y(x.size()); for (size_t j = 0; j < y.size(); ++j) y[p[j]] = x[j]; return at(y); }); }
   MV bound(size_t d, size_t v) const { Vec s(shape); s.erase(s.begin() + d); return make(s, order, [&](const Vec& x) { Vec y(x); y.insert(y.begin() + d, v); return at(y); }); }
   MV squeezed() const { Vec s, keep; for (size_t j = 0; j < dim(); ++j) if (shape[j] != 1) { s.push_back(shape[j]); keep.push_back(j); } return make(s, order, [&](const Vec& x) { Vec y(dim(), 0); for (size_t j = 0; j < x.size(); ++j) y[keep[j]] = x[j]; return at(y); }); }
   MV reshaped(const Vec& s) const { MV v = *this; CoordinateOrder o = order; return make(s, o, [&](const Vec& x) { return v.atIndex(o == LastMajorOrder ? lastMajor(x, s) : firstMajor(x, s)); }); }
   bool shares(const MV& o) const { std::set<size_t> a(cell.begin(), cell.end()); for (size_t k : o.cell) if (a.count(k)) return true; return false; }
   std::string str() const { return pbt::str("view shape=", pbt::vec(shape), " order=", order == LastMajorOrder ? "last-major" : "first-major", " cells=", pbt::vec(cell)); }
};
inline CoordinateOrder anyOrder(pbt::Ctx& c) { return c.flip(0.5) ? FirstMajorOrder : LastMajorOrder; }
inline Vec anyShape(pbt::Ctx& c, size_t maxDim = 4, size_t maxSize = 4, size_t budget = 120) {
   size_t d; if (c.flip(0.06) && maxDim >= 4) { d = c.range(5, 12); maxSize = 2; } else d = c.range(1, maxDim);
   Vec s; size_t p = 1; for (size_t j = 0; j < d; ++j) { size_t k = 1 + c.upTo(maxSize - 1); if (p * k > budget) k = 1; s.push_back(k); p *= k; } return s;
}
template<class T, bool C> std::string geo(const marray::View<T, C>& v) { return pbt::str("shape ", pbt::vec(Vec(v.shapeBegin(), v.shapeEnd())), " strides ", pbt::vec(Vec(v.stridesBegin(), v.stridesEnd())), v.isSimple() ? " simple" : " strided"); }
// every way of reading through the view against the model
template<class T, bool C> void checkReads(pbt::Ctx& c, const marray::View<T, C>& v, const MV& m, const T* mem) {
   CHECK_EQ(v.dimension(), m.dim(), "dimension of " << m.str()); CHECK_EQ(v.size(), m.size(), "size of " << m.str());
   CHECK(v.coordinateOrder() == m.order, "coordinate order of " << m.str());
   CHECK_EQ((size_t)(v.shapeEnd() - v.shapeBegin()), m.dim(), "shape range");
   for (size_t j = 0; j < m.dim(); ++j) { CHECK_EQ(v.shape(j), m.shape[j], "shape " << j << " of " << m.str()); CHECK_EQ(v.shapeBegin()[j], m.shape[j], "shape iterator"); CHECK_EQ(v.stridesBegin()[j], v.strides(j), "strides iterator"); }
   CHECK_EQ((size_t)(&v(0) - mem), m.atIndex(0), "first element of " << m.str());
   Vec x(m.dim(), 0); do {
      size_t want = m.at(x), idx = m.order == LastMajorOrder ? lastMajor(x, m.shape) : firstMajor(x, m.shape), got, off = 0;
      if (m.dim()) { CHECK_EQ((size_t)(&v(x.begin()) - mem), want, "element at " << pbt::vec(x) << " of " << m.str() << "; " << geo(v)); v.coordinatesToIndex(x.begin(), got); CHECK_EQ(got, idx, "index of " << pbt::vec(x)); Vec y(m.dim(), 77); v.indexToCoordinates(idx, y.begin()); CHECK(y == x, "coordinates of index " << idx << ": " << pbt::vec(y) << " vs " << pbt::vec(x) << " in " << m.str());
         v.coordinatesToOffset(x.begin(), off); CHECK_EQ(off, want - m.atIndex(0), "offset of " << pbt::vec(x)); size_t o2 = 99999; v.indexToOffset(idx, o2); CHECK_EQ(o2, off, "offset of index " << idx); }
      CHECK_EQ((size_t)(&v(idx) - mem), want, "element with index " << idx << " of " << m.str() << "; " << geo(v));
      switch (m.dim()) {
         case 2: CHECK_EQ((size_t)(&v(x[0], x[1]) - mem), want, "2 coordinates"); break;
         case 3: CHECK_EQ((size_t)(&v(x[0], x[1], x[2]) - mem), want, "3 coordinates"); break;
         case 4: CHECK_EQ((size_t)(&v(x[0], x[1], x[2], x[3]) - mem), want, "4 coordinates"); break;
         case 5: CHECK_EQ((size_t)(&v(x[0], x[1], x[2], x[3], x[4]) - mem), want, "5 coordinates"); break;
         case 10: CHECK_EQ((size_t)(&v(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9]) - mem), want, "10 coordinates"); break;
         default: break;
      }
   } while (nextC(x, m.shape));
   if (v.isSimple()) for (size_t i = 0; i < m.size(); ++i) CHECK_EQ(m.atIndex(i), m.atIndex(0) + i, "a view that reports to be simple is not contiguous: " << m.str());
   Vec order = m.inIndexOrder(); size_t i = 0;
   { auto it = v.begin(); auto e = v.end(); for (; it != e; ++it, ++i) { CHECK(i < order.size(), "iteration too long over " << m.str()); CHECK(it.hasMore(), "hasMore"); CHECK_EQ(it.index(), i, "iterator index"); CHECK_EQ((size_t)(&*it - mem), order[i], "iteration " << i << " over " << m.str() << "; " << geo(v)); if (m.dim()) { Vec y(m.dim(), 99); it.coordinate(y.begin()); CHECK(y == coordOf(i, m.shape, m.order), "iterator coordinate " << pbt::vec(y) << " at " << i << " of " << m.str()); } }
     CHECK_EQ(i, order.size(), "iteration length over " << m.str()); CHECK(!it.hasMore(), "hasMore at the end"); CHECK_EQ((size_t)(v.end() - v.begin()), order.size(), "end - begin"); }
   { auto it = v.rbegin(); auto e = v.rend(); size_t k = order.size(); for (; it != e; ++it) { CHECK(k > 0, "reverse iteration too long"); --k; CHECK_EQ((size_t)(&*it - mem), order[k], "reverse iteration over " << m.str() << "; " << geo(v)); } CHECK_EQ(k, (size_t)0, "reverse iteration length"); }
}
// a random further transformation of a view, applied to the real one and to the model
template<class T, bool C> void step(pbt::Ctx& c, marray::View<T, C>& v, MV& m) {
   typedef marray::View<T, C> V;
   size_t k = c.weighted({4, 3, 3, 2, 1, 2, 2, 2, 1, 1});
   if (m.dim() == 0 && k != 9) k = 5;
   switch (k) {
      case 0: case 8: { Vec b, s; for (size_t j = 0; j < m.dim(); ++j) { size_t lo = c.upTo(m.shape[j] - 1); b.push_back(lo); s.push_back(1 + (c.flip(0.3) ? m.shape[j] - lo - 1 : c.upTo(m.shape[j] - lo - 1))); }
         bool ch = k == 8; CoordinateOrder o = ch ? anyOrder(c) : m.order; c.note(pbt::str("sub-view base ", pbt::vec(b), " shape ", pbt::vec(s), ch ? (o == LastMajorOrder ? " as last-major" : " as first-major") : ""));
         V w; switch (c.upTo(1)) { case 0: w = V(); if (ch) v.view(b.begin(), s.begin(), o, w); else v.view(b.begin(), s.begin(), w); break; default: { V w2(ch ? v.view(b.begin(), s.begin(), o) : v.view(b.begin(), s.begin())); w.assign(w2.shapeBegin(), w2.shapeEnd(), w2.stridesBegin(), &w2(0), w2.coordinateOrder()); } }
         v.assign(); v = w; m = m.sub(b, s, o); break; }
      case 1: { size_t d = c.upTo(m.dim() - 1), x = c.upTo(m.shape[d] - 1); c.note(pbt::str("bind dimension ", d, " to ", x)); V w(v.boundView(d, x)); v.assign(); v = w; m = m.bound(d, x); break; }
      case 2: { Vec p = c.perm(m.dim()); c.note(pbt::str("permute ", pbt::vec(p))); if (c.flip(0.5)) v.permute(p.begin()); else { V w(v.permutedView(p.begin())); v.assign(); v = w; } m = m.permuted(p); break; }
      case 3: { size_t a = c.upTo(m.dim() - 1), b = c.upTo(m.dim() - 1); c.note(pbt::str("transpose ", a, " ", b)); if (c.flip(0.5)) v.transpose(a, b); else { V w(v.transposedView(a, b)); v.assign(); v = w; } Vec p(m.dim()); std::iota(p.begin(), p.end(), 0); std::swap(p[a], p[b]); m = m.permuted(p); break; }
      case 4: { c.note("transpose"); if (c.flip(0.5)) v.transpose(); else { V w(v.transposedView()); v.assign(); v = w; } Vec p(m.dim()); for (size_t j = 0; j < p.size(); ++j) p[j] = p.size() - 1 - j; m = m.permuted(p); break; }
      case 5: { c.note("squeeze"); if (c.flip(0.5)) v.squeeze(); else { V w(v.squeezedView()); v.assign(); v = w; } m = m.squeezed(); break; }
      case 6: { int n = (int)c.sym(2 * m.dim() + 1); c.note(pbt::str("shift ", n)); if (c.flip(0.5)) v.shift(n); else { V w(v.shiftedView(n)); v.assign(); v = w; } Vec p(m.dim()); int d = (int)m.dim(); for (int j = 0; j < d; ++j) p[j] = (size_t)((((j - n) % d) + d) % d); m = m.permuted(p); break; }
      case 7: { if (!v.isSimple()) { c.label("reshape-skipped"); break; } Vec s; size_t r = m.size(); while (r > 1) { Vec divs; for (size_t q = 2; q <= r; ++q) if (r % q == 0) divs.push_back(q); size_t q = c.pick(divs); s.push_back(q); r /= q; if (c.flip(0.15)) s.push_back(1); } if (s.empty()) s.push_back(1); c.note(pbt::str("reshape ", pbt::vec(s))); if (c.flip(0.5)) v.reshape(s.begin(), s.end()); else { V w(v.reshapedView(s.begin(), s.end())); v.assign(); v = w; } m = m.reshaped(s); c.label("reshape"); break; }
      case 9: { V w(v); v.assign(); v = w; break; }
   }
   CHECK_EQ(v.dimension(), m.dim(), "dimension after the transformation");
   for (size_t j = 0; j < m.dim(); ++j) CHECK_EQ(v.shape(j), m.shape[j], "shape after the transformation: " << geo(v));
}
// base view over a block of memory with gaps
template<class T> struct Block {
   std::vector<T> mem; marray::View<T, false> v; MV m;
   Block(pbt::Ctx& c, size_t maxDim = 4, size_t maxSize = 4, size_t budget = 120) { init(c, anyShape(c, maxDim, maxSize, budget)); }
   Block(pbt::Ctx& c, const Vec& s) { init(c, s); }
   void init(pbt::Ctx& c, const Vec& s) {
      CoordinateOrder o = anyOrder(c); size_t lead = c.upTo(2); Vec strides(s.size()); size_t k = c.upTo(2);
      if (k == 0) { size_t q = 1; if (o == LastMajorOrder) for (size_t j = 0; j < s.size(); ++j) { strides[j] = q; q *= s[j]; } else for (size_t j = s.size(); j-- > 0;) { strides[j] = q; q *= s[j]; } }
      else if (k == 1) { size_t q = 1; if (o != LastMajorOrder) for (size_t j = 0; j < s.size(); ++j) { strides[j] = q; q *= s[j]; } else for (size_t j = s.size(); j-- > 0;) { strides[j] = q; q *= s[j]; } }
      else { Vec p = c.perm(s.size()); size_t q = 1 + c.upTo(1); for (size_t j : p) { strides[j] = q; q = q * s[j] + c.upTo(1); } }
      size_t span = 1; for (size_t j = 0; j < s.size(); ++j) span += (s[j] - 1) * strides[j];
      mem.resize(lead + span + 2); for (size_t i = 0; i < mem.size(); ++i) mem[i] = T(i + 1);
      m = MV::make(s, o, [&](const Vec& x) { size_t q = lead; for (size_t j = 0; j < x.size(); ++j) q += x[j] * strides[j]; return q; });
      c.note(pbt::str("block shape ", pbt::vec(s), " strides ", pbt::vec(strides), " order ", o == LastMajorOrder ? "last-major" : "first-major"));
      if (k == 0) v.assign(s.begin(), s.end(), &mem[lead], o, o);
      else if (k == 1) v.assign(s.begin(), s.end(), &mem[lead], o == LastMajorOrder ? FirstMajorOrder : LastMajorOrder, o);
      else v.assign(s.begin(), s.end(), strides.begin(), &mem[lead], o);
   }
};
}
