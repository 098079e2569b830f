// D02: FastSequence and BufferVector are std::vector under every history of operations on several objects
#include "pbt.hxx"
#include <opengm/opengm.hxx>
using pbt::Ctx;
#include <opengm/datastructures/fast_sequence.hxx>
#include <opengm/datastructures/buffer_vector.hxx>
#include <string>
#include <memory>

template<class T> T val(Ctx& c);
template<> int val<int>(Ctx& c) { return (int)c.range(-5, 30); }
template<> size_t val<size_t>(Ctx& c) { return (size_t)c.range(0, 30); }
template<> double val<double>(Ctx& c) { return (double)c.range(-20, 20) / 4; }
template<> std::string val<std::string>(Ctx& c) { return std::string((size_t)c.range(0, 40), (char)('a' + c.range(0, 3))); }

template<class S, class T>
struct Slot { std::unique_ptr<S> s; std::vector<T> m; };

template<class S, class T>
void same(Ctx& c, const S& s, const std::vector<T>& m, const char* w) {
   CHECK_EQ(s.size(), m.size(), w);
   CHECK_EQ(s.empty(), m.empty(), w);
   for (size_t i = 0; i < m.size(); ++i) CHECK_EQ(s[i], m[i], pbt::str(w, " element ", i));
   if (!m.empty()) {
      CHECK_EQ((size_t)(s.end() - s.begin()), m.size(), w);
      CHECK(std::equal(s.begin(), s.end(), m.begin()), pbt::str(w, " iteration"));
      CHECK_EQ(s.front(), m.front(), w);
      CHECK_EQ(s.back(), m.back(), w);
      S& ns = const_cast<S&>(s);
      CHECK_EQ((size_t)(ns.end() - ns.begin()), m.size(), w);
      CHECK_EQ(ns.front(), m.front(), w);
      CHECK_EQ(ns.back(), m.back(), w);
   }
}

template<class S, class T>
void history(Ctx& c, int big) {
   typedef Slot<S, T> SL;
   std::vector<SL> o(2 + (size_t)c.range(0, 1));
   for (auto& x : o) x.s.reset(new S());
   size_t maxSize = 0, copies = 0;
   const int n = (int)c.range(1, 22);
   c.label(pbt::str("ops ", n / 8 * 8, "+"));
   for (int k = 0; k < n; ++k) {
      SL& a = o[(size_t)c.range(0, (long)o.size() - 1)];
      SL& b = o[(size_t)c.range(0, (long)o.size() - 1)];
      const int op = (int)c.range(0, 14);
      c.note(pbt::str("op ", op, " on ", (size_t)(&a - &o[0]), "/", (size_t)(&b - &o[0])));
      switch (op) {
         case 0: case 1: case 2: { const T v = val<T>(c); a.s->push_back(v); a.m.push_back(v); break; }
         case 3: { // a burst
            const long r = c.range(1, big);
            for (long i = 0; i < r; ++i) { const T v = val<T>(c); a.s->push_back(v); a.m.push_back(v); }
            break; }
         case 4: { // an element of the sequence itself
            if (a.m.empty()) break;
            const size_t i = (size_t)c.range(0, (long)a.m.size() - 1);
            a.s->push_back((*a.s)[i]); const T v = a.m[i]; a.m.push_back(v);
            c.label("push own element");
            break; }
         case 5: { // resize, new elements set explicitly: their value after resize is not specified
            const size_t z = (size_t)c.range(0, big);
            const size_t old = a.m.size();
            a.s->resize(z); a.m.resize(z);
            for (size_t i = old; i < z; ++i) { const T v = val<T>(c); (*a.s)[i] = v; a.m[i] = v; }
            break; }
         case 6: { a.s->reserve((size_t)c.range(0, big)); c.label("reserve"); break; }
         case 7: { a.s->clear(); a.m.clear(); break; }
         case 8: { *a.s = *b.s; a.m = b.m; ++copies; c.labelIf(&a == &b, "self assignment"); break; }
         case 9: { a.s.reset(new S(*b.s)); if (&a != &b) a.m = b.m; ++copies; break; }
         case 10: { // assign from an iterator range
            std::vector<T> v((size_t)c.range(0, big));
            for (auto& x : v) x = val<T>(c);
            if (c.flip()) a.s->assign(v.begin(), v.end());
            else a.s->assign(v.data(), v.data() + v.size());
            a.m = v;
            break; }
         case 11: { // from another sequence
            if (&a == &b || b.m.empty()) break;
            a.s->assign(b.s->begin(), b.s->end()); a.m = b.m;
            break; }
         case 12: { const size_t z = (size_t)c.range(0, big); const T v = val<T>(c);
            a.s.reset(new S(z, v)); a.m.assign(z, v); break; }
         case 13: { const size_t z = (size_t)c.range(0, big);
            a.s.reset(new S(z)); a.m.resize(z);
            for (size_t i = 0; i < z; ++i) { const T v = val<T>(c); (*a.s)[i] = v; a.m[i] = v; }
            break; }
         case 14: { // write access
            if (a.m.empty()) break;
            const T v = val<T>(c);
            switch (c.range(0, 3)) {
               case 0: { const size_t i = (size_t)c.range(0, (long)a.m.size() - 1); (*a.s)[i] = v; a.m[i] = v; break; }
               case 1: a.s->front() = v; a.m.front() = v; break;
               case 2: a.s->back() = v; a.m.back() = v; break;
               case 3: { const size_t i = (size_t)c.range(0, (long)a.m.size() - 1); *(a.s->begin() + i) = v; a.m[i] = v; break; }
            }
            break; }
      }
      maxSize = std::max(maxSize, a.m.size());
      for (size_t i = 0; i < o.size(); ++i) same<S, T>(c, *o[i].s, o[i].m, pbt::str("after operation ", k, " (", op, ") sequence ", i).c_str());
   }
   c.labelIf(copies > 0, "copied");
   c.nontrivialIf(n >= 5 && maxSize >= 3);
}

PROP(fast_sequence_2_int, 8000, 200000) { history<opengm::FastSequence<int, 2>, int>(c, 9); }
PROP(fast_sequence_1_double, 8000, 200000) { history<opengm::FastSequence<double, 1>, double>(c, 6); }
PROP(fast_sequence_5_sizet, 8000, 200000) { history<opengm::FastSequence<size_t>, size_t>(c, 14); }
PROP(fast_sequence_3_string, 8000, 200000) { history<opengm::FastSequence<std::string, 3>, std::string>(c, 9); }
PROP(buffer_vector_int, 8000, 200000) { history<opengm::BufferVector<int>, int>(c, 9); }
PROP(buffer_vector_double, 8000, 200000) { history<opengm::BufferVector<double>, double>(c, 20); }
PROP(buffer_vector_string, 8000, 200000) { history<opengm::BufferVector<std::string>, std::string>(c, 6); }
