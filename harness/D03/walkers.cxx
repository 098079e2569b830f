// D03: label-tuple walkers, subsequence iterators, accessor iterators, vector views
#include "pbt.hxx"
#include <opengm/opengm.hxx>
#include <opengm/utilities/indexing.hxx>
#include <opengm/utilities/subsequence_iterator.hxx>
#include <opengm/utilities/accessor_iterator.hxx>
#include <opengm/utilities/shape_accessor.hxx>
#include <opengm/utilities/vector_view.hxx>
#include <opengm/utilities/unsigned_integer_pow.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/potts.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <deque>
#include <list>
using pbt::Ctx;

typedef std::vector<size_t> V;
static V shapeGen(Ctx& c, size_t maxDim, size_t cap) {
   V s((size_t)c.range(0, (long)maxDim)); size_t t = 1;
   for (auto& x : s) { x = (size_t)c.range(1, t > cap / 4 ? 1 : (t > cap / 16 ? 2 : 4)); t *= x; }
   return s;
}
static size_t prod(const V& s) { size_t t = 1; for (size_t x : s) t *= x; return t; }
static V coordOf(size_t k, const V& s) { V x(s.size()); for (size_t i = 0; i < s.size(); ++i) { x[i] = k % s[i]; k /= s[i]; } return x; }
static V coordOfLast(size_t k, const V& s) { V x(s.size()); for (size_t i = s.size(); i-- > 0;) { x[i] = k % s[i]; k /= s[i]; } return x; }
template<class S> V asV(const S& s) { V v; for (size_t i = 0; i < s.size(); ++i) v.push_back((size_t)s[i]); return v; }

template<class IT>
void walkShape(Ctx& c, const V& s, IT b) {
   const size_t n = prod(s);
   opengm::ShapeWalker<IT> w(b, s.size());
   opengm::ShapeWalkerSwitchedOrder<IT> v(b, s.size());
   const size_t stop = (size_t)c.range(0, (long)n - 1);
   for (size_t k = 0; k < n; ++k) {
      CHECK(asV(w.coordinateTuple()) == coordOf(k, s), pbt::str("ShapeWalker step ", k));
      CHECK(asV(v.coordinateTuple()) == coordOfLast(k, s), pbt::str("ShapeWalkerSwitchedOrder step ", k));
      if (k == stop) { // a copy continues independently
         opengm::ShapeWalker<IT> u(w);
         for (size_t j = k; j < n; ++j) { CHECK(asV(u.coordinateTuple()) == coordOf(j, s), "copied walker"); if (j + 1 < n) ++u; }
      }
      if (k + 1 < n) { ++w; ++v; }
   }
   w.reset();
   for (size_t k = 0; k < n; ++k) { CHECK(asV(w.coordinateTuple()) == coordOf(k, s), "after reset"); if (k + 1 < n) ++w; }
}
PROP(shape_walkers, 6000, 100000) {
   V s = shapeGen(c, 8, 600);
   c.note(pbt::str("shape ", pbt::vec(s)));
   if (c.flip()) walkShape(c, s, s.begin());
   else { std::deque<unsigned char> d(s.begin(), s.end()); walkShape(c, s, d.begin()); }
   c.labelIf(s.empty(), "no dimension"); c.labelIf(s.size() > 5, "more than five dimensions");
   c.nontrivialIf(s.size() >= 2 && prod(s) >= 4);
}
PROP(sub_shape_walker, 6000, 100000) {
   V s = shapeGen(c, 7, 600);
   const V fix = [&] { V f; for (size_t i = 0; i < s.size(); ++i) if (c.flip()) f.push_back(i); return f; }();
   V val; for (size_t f : fix) val.push_back((size_t)c.range(0, (long)s[f] - 1));
   c.note(pbt::str("shape ", pbt::vec(s), " fixed ", pbt::vec(fix), " to ", pbt::vec(val)));
   opengm::SubShapeWalker<V::iterator, V, V> w(s.begin(), s.size(), fix, val);
   std::vector<V> want;
   for (size_t k = 0; k < prod(s); ++k) {
      const V x = coordOf(k, s); bool ok = true;
      for (size_t i = 0; i < fix.size(); ++i) ok = ok && x[fix[i]] == val[i];
      if (ok) want.push_back(x);
   }
   CHECK_EQ(w.subSize(), want.size(), "subSize");
   for (int round = 0; round < 2; ++round) {
      for (size_t k = 0; k < want.size(); ++k) {
         CHECK(asV(w.coordinateTuple()) == want[k], pbt::str("step ", k, " of round ", round));
         if (k + 1 < want.size()) ++w;
      }
      w.resetCoordinate();
   }
   c.nontrivialIf(!fix.empty() && want.size() >= 2);
}
PROP(double_and_triple_walkers, 8000, 150000) {
   V s = shapeGen(c, 6, 400);
   V vi, va, vb; V pa, pb; size_t v = 0;
   for (size_t i = 0; i < s.size(); ++i) {
      v += (size_t)c.range(1, 3); vi.push_back(v);
      if (c.flip()) { va.push_back(v); pa.push_back(i); }
      if (c.flip()) { vb.push_back(v); pb.push_back(i); }
   }
   c.note(pbt::str("shape ", pbt::vec(s), " AB ", pbt::vec(vi), " A ", pbt::vec(va), " B ", pbt::vec(vb)));
   opengm::DoubleShapeWalker<V::const_iterator> d(((const V&)s).begin(), s.size(), vi, va);
   const size_t n = prod(s);
   auto project = [&](const V& x, const V& p) { V y; for (size_t i : p) y.push_back(x[i]); return y; };
   for (size_t k = 0; k < n; ++k) {
      const V x = coordOf(k, s);
      CHECK(asV(d.coordinateTupleAB()) == x, pbt::str("double walker AB step ", k));
      CHECK(asV(d.coordinateTupleA()) == project(x, pa), pbt::str("double walker A step ", k));
      ++d;
   }
   if (!va.empty() && !vb.empty()) {
      opengm::TripleShapeWalker<V::const_iterator> t(((const V&)s).begin(), s.size(), vi, va, vb);
      for (size_t k = 0; k < n; ++k) {
         const V x = coordOf(k, s);
         CHECK(asV(t.coordinateTupleAB()) == x, pbt::str("triple walker AB step ", k));
         CHECK(asV(t.coordinateTupleA()) == project(x, pa), pbt::str("triple walker A step ", k));
         CHECK(asV(t.coordinateTupleB()) == project(x, pb), pbt::str("triple walker B step ", k));
         ++t;
      }
   }
   c.nontrivialIf(!va.empty() && va.size() < vi.size() && n >= 4);
}

// ---- iterators: compared with iterators into a plain vector holding the expected sequence
template<class IT, class T>
void likeVector(Ctx& c, const IT& b, const std::vector<T>& m, bool arrow) {
   const long n = (long)m.size();
   long p = 0; IT it(b);
   const int ops = (int)c.range(1, 15);
   for (int k = 0; k < ops; ++k) {
      const int op = (int)c.range(0, 9);
      const long q = c.range(0, n); // target of jumps
      switch (op) {
         case 0: if (p < n) { IT& r = ++it; ++p; CHECK(&r == &it, "++ returns the iterator"); } break;
         case 1: if (p < n) { IT old = it++; if (p < n) CHECK_EQ(*old, m[(size_t)p], "it++ returns the old position"); ++p; } break;
         case 2: if (p > 0) { IT& r = --it; --p; CHECK(&r == &it, "-- returns the iterator"); } break;
         case 3: if (p > 0) { IT old = it--; if (p < n) CHECK_EQ(*old, m[(size_t)p], "it-- returns the old position"); --p; } break;
         case 4: if (q >= p) { it += (q - p); p = q; } else { it -= (p - q); p = q; } break;
         case 5: if (q >= p) { it = it + (q - p); p = q; } else { it = it - (p - q); p = q; } break;
         case 6: { IT e(b); it = e; p = 0; break; }
         case 7: if (p < n) CHECK_EQ(it[q - p < 0 ? 0 : (q == n ? n - 1 - p : q - p)], m[(size_t)(q < p ? p : (q == n ? n - 1 : q))], "subscript"); break;
         case 8: { IT x(b); x += q; // comparison and difference with another position
            CHECK_EQ(it == x, p == q, "=="); CHECK_EQ(it != x, p != q, "!=");
            CHECK_EQ(it < x, p < q, "<"); CHECK_EQ(it > x, p > q, ">"); CHECK_EQ(it <= x, p <= q, "<="); CHECK_EQ(it >= x, p >= q, ">=");
            CHECK_EQ((long)(std::ptrdiff_t)(it - x), p - q, "difference");
            break; }
         case 9: { const IT ci(it); if (p < n) { CHECK_EQ(*ci, m[(size_t)p], "const dereference"); CHECK_EQ(ci[0], m[(size_t)p], "const subscript"); } break; }
      }
      if (p < n) CHECK_EQ(*it, m[(size_t)p], pbt::str("dereference at ", p));
   }
   // whole range
   IT e(b); e += n; std::vector<T> all;
   for (IT i(b); i != e; ++i) all.push_back(*i);
   CHECK(all == m, "forward iteration");
   std::vector<T> rev;
   for (IT i(e); i != b;) { --i; rev.push_back(*i); }
   CHECK((std::vector<T>(rev.rbegin(), rev.rend()) == m), "backward iteration");
   (void)arrow;
}

template<class SEQ, class IND>
void subsequence(Ctx& c) {
   SEQ seq; const size_t n = (size_t)c.range(1, 9);
   for (size_t i = 0; i < n; ++i) seq.push_back((typename SEQ::value_type)c.range(-9, 9));
   IND ind; std::vector<typename SEQ::value_type> m;
   const size_t k = (size_t)c.range(0, 9);
   for (size_t i = 0; i < k; ++i) { ind.push_back((typename IND::value_type)c.range(0, (long)n - 1)); m.push_back(seq[(size_t)ind.back()]); }
   typedef opengm::SubsequenceIterator<typename SEQ::const_iterator, typename IND::const_iterator> IT;
   const IT b(((const SEQ&)seq).begin(), ((const IND&)ind).begin());
   likeVector(c, b, m, true);
   const size_t at = (size_t)c.range(0, (long)k);
   const IT d(((const SEQ&)seq).begin(), ((const IND&)ind).begin(), at);
   CHECK_EQ((long)(d - b), (long)at, "constructed at a position");
   if (at < k) CHECK_EQ(*d.operator->(), m[at], "arrow");
   c.nontrivialIf(k >= 2 && n >= 2);
}
PROP(subsequence_iterator_vector, 6000, 150000) { subsequence<std::vector<double>, std::vector<size_t> >(c); }
PROP(subsequence_iterator_deque, 6000, 150000) { subsequence<std::deque<int>, std::vector<int> >(c); }

template<class T, bool isConst>
struct VecAcc {
   typedef T value_type;
   typedef typename opengm::meta::If<isConst, const T&, T&>::type reference;
   typedef typename opengm::meta::If<isConst, const T*, T*>::type pointer;
   typedef typename opengm::meta::If<isConst, const std::vector<T>*, std::vector<T>*>::type vp;
   VecAcc(vp v = 0) : v_(v) {}
   size_t size() const { return v_ ? v_->size() : 0; }
   reference operator[](size_t j) { return (*v_)[j]; }
   const T& operator[](size_t j) const { return (*v_)[j]; }
   template<bool B> bool operator==(const VecAcc<T, B>& o) const { return v_ == o.v_; }
   vp v_;
};
PROP(accessor_iterator_reference, 6000, 150000) {
   std::vector<double> m((size_t)c.range(0, 8)); for (auto& x : m) x = (double)c.range(-9, 9);
   opengm::AccessorIterator<VecAcc<double, true>, true> b{VecAcc<double, true>(&m)};
   likeVector(c, b, m, true);
   std::vector<double> w(m);
   typedef opengm::AccessorIterator<VecAcc<double, false>, false> W;
   W it{VecAcc<double, false>(&w)}; likeVector(c, it, m, true);
   W e{VecAcc<double, false>(&w), w.size()};
   for (W i = it; i != e; ++i) *i += 1;
   for (size_t i = 0; i < m.size(); ++i) CHECK_EQ(w[i], m[i] + 1, "writing through an accessor iterator");
   if (!w.empty()) { const size_t j = (size_t)c.range(0, (long)w.size() - 1); it[j] = 77; CHECK_EQ(w[j], 77.0, "writing through subscript"); }
   // excess increments stop at the end
   W f = it; f += w.size() + (size_t)c.range(0, 3); CHECK(f == e, "+= stops at the end");
   ++f; f++; CHECK(f == e, "++ stops at the end");
   CHECK((2 + it) - it == std::min<size_t>(2, w.size()), "n + it");
   c.nontrivialIf(m.size() >= 2);
}
PROP(library_accessors, 6000, 120000) {
   typedef opengm::GraphicalModel<double, opengm::Adder, opengm::ExplicitFunction<double>, opengm::DiscreteSpace<> > GM;
   const size_t n = (size_t)c.range(1, 6);
   V lab(n); for (auto& x : lab) x = (size_t)c.range(1, 3);
   GM gm(opengm::DiscreteSpace<>(lab.begin(), lab.end()));
   V vis; for (size_t i = 0; i < n; ++i) if (c.flip()) vis.push_back(i);
   if (vis.empty()) vis.push_back((size_t)c.range(0, (long)n - 1));
   V sh; for (size_t i : vis) sh.push_back(lab[i]);
   opengm::ExplicitFunction<double> f(sh.begin(), sh.end(), 1.0);
   gm.addFactor(gm.addFunction(f), vis.begin(), vis.end());
   typedef GM::FactorType F;
   const F& fac = gm[0];
   V all; for (size_t i = 0; i < n; ++i) all.push_back((size_t)c.range(0, (long)lab[i] - 1));
   V loc; for (size_t i : vis) loc.push_back(all[i]);
   c.note(pbt::str("labels ", pbt::vec(lab), " variables ", pbt::vec(vis), " labeling ", pbt::vec(all)));
   { typedef opengm::FactorShapeAccessor<F> A; A a(fac); CHECK_EQ(a.size(), sh.size(), "FactorShapeAccessor size");
     likeVector(c, opengm::AccessorIterator<A, true>(a, 0), sh, false); CHECK(A(&fac) == a, "FactorShapeAccessor =="); CHECK_EQ(A().size(), (size_t)0, "empty accessor"); }
   { typedef opengm::FactorVariablesAccessor<F> A; A a(fac); CHECK_EQ((size_t)a.size(), sh.size(), "FactorVariablesAccessor size");
     likeVector(c, opengm::AccessorIterator<A, true>(a, 0), vis, false); }
   { typedef opengm::FunctionShapeAccessor<opengm::ExplicitFunction<double> > A; A a(f); CHECK_EQ(a.size(), sh.size(), "FunctionShapeAccessor size");
     likeVector(c, opengm::AccessorIterator<A, true>(a, 0), sh, false); }
   { typedef opengm::GmLabelFactorLabelAccessor<F, V::const_iterator> A; A a(fac, ((const V&)all).begin()); CHECK_EQ(a.size(), loc.size(), "GmLabelFactorLabelAccessor size");
     likeVector(c, opengm::AccessorIterator<A, true>(a, 0), loc, false); }
   { typedef opengm::SubsetAccessor<V::const_iterator, V::const_iterator> A; A a(((const V&)vis).begin(), ((const V&)vis).end(), ((const V&)all).begin());
     CHECK_EQ(a.size(), loc.size(), "SubsetAccessor size");
     likeVector(c, opengm::AccessorIterator<A, true>(a, 0), loc, false); }
   c.nontrivialIf(vis.size() >= 2);
}
PROP(vector_view, 6000, 150000) {
   std::vector<double> m((size_t)c.range(0, 10)), o((size_t)c.range(0, 10)); for (auto& x : m) x = (double)c.range(-9, 9); for (auto& x : o) x = (double)c.range(-9, 9);
   typedef opengm::VectorView<std::vector<double>, size_t> VV;
   auto check = [&](VV& v, const std::vector<double>& base, size_t st, size_t sz, const char* w) {
      const VV& cv = v; const std::vector<double> want(base.begin() + (long)st, base.begin() + (long)(st + sz));
      CHECK_EQ(cv.size(), sz, w);
      CHECK((std::vector<double>(cv.begin(), cv.end()) == want), w);
      CHECK((std::vector<double>(v.begin(), v.end()) == want), w);
      for (size_t i = 0; i < sz; ++i) { CHECK_EQ(cv[i], want[i], w); CHECK_EQ(v[i], want[i], w); }
   };
   const size_t st = (size_t)c.range(0, (long)m.size()), sz = (size_t)c.range(0, (long)(m.size() - st));
   VV v(m, st, sz); check(v, m, st, sz, "view");
   VV w(m); check(w, m, 0, 0, "view without a range");
   VV u(v); check(u, m, st, sz, "copied view");
   const size_t st2 = (size_t)c.range(0, (long)o.size()), sz2 = (size_t)c.range(0, (long)(o.size() - st2));
   u.assign(o, st2, sz2); check(u, o, st2, sz2, "assigned view"); check(v, m, st, sz, "the original is unaffected");
   m.push_back(5); v.assignPtr(m); check(v, m, st, sz, "re-pointed view");
   c.nontrivialIf(sz >= 2);
}
