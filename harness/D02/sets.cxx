// D02: RandomAccessSet is std::set under every history of operations on several objects
#include "pbt.hxx"
#include <opengm/opengm.hxx>
using pbt::Ctx;
#include <opengm/datastructures/randomaccessset.hxx>
#include <opengm/datastructures/buffer_randomaccessset.hxx>
#include <set>
#include <string>
#include <memory>

struct Order { // a stateful order
   int mod; bool desc;
   explicit Order(int m = 0, bool d = false) : mod(m), desc(d) {}
   bool operator()(int a, int b) const {
      if (mod) { a = ((a % mod) + mod) % mod; b = ((b % mod) + mod) % mod; }
      return desc ? b < a : a < b;
   }
};
template<class K> K key(Ctx& c);
template<> int key<int>(Ctx& c) { return (int)c.range(-6, 14); }
template<> size_t key<size_t>(Ctx& c) { return (size_t)c.range(0, 18); }
template<> std::string key<std::string>(Ctx& c) { return std::string((size_t)c.range(0, 3), (char)('a' + c.range(0, 3))); }
template<class C> C makeOrder(Ctx&) { return C(); }
template<> Order makeOrder<Order>(Ctx& c) { return Order((int)c.pick({0, 0, 3, 5}), c.flip()); }

template<class K, class C>
struct Model { typedef std::set<K, C> M; };

template<class S, class M>
void same(Ctx& c, S& s, const M& m, const std::string& w) {
   typedef typename M::key_type K;
   const S& cs = s;
   CHECK_EQ(cs.size(), m.size(), w);
   CHECK_EQ(cs.empty(), m.empty(), w);
   CHECK_EQ((size_t)(cs.end() - cs.begin()), m.size(), w);
   CHECK_EQ((size_t)(s.end() - s.begin()), m.size(), w);
   size_t i = 0;
   typename S::const_iterator it = cs.begin();
   typename S::iterator jt = s.begin();
   for (const K& x : m) {
      CHECK_EQ(cs[i], x, pbt::str(w, " element ", i));
      CHECK_EQ(*it, x, w); CHECK_EQ(*jt, x, w);
      ++it; ++jt; ++i;
   }
}

template<class S, class M>
void query(Ctx& c, S& s, const M& m, const typename M::key_type& k, const std::string& w) {
   const S& cs = s;
   const size_t lo = (size_t)std::distance(m.begin(), m.lower_bound(k)), hi = (size_t)std::distance(m.begin(), m.upper_bound(k));
   const size_t fi = (size_t)std::distance(m.begin(), m.find(k));
   CHECK_EQ(cs.count(k), m.count(k), w);
   CHECK_EQ((size_t)(cs.find(k) - cs.begin()), fi, w + " find");
   CHECK_EQ((size_t)(s.find(k) - s.begin()), fi, w + " find");
   CHECK_EQ((size_t)(cs.lower_bound(k) - cs.begin()), lo, w + " lower_bound");
   CHECK_EQ((size_t)(s.lower_bound(k) - s.begin()), lo, w + " lower_bound");
   CHECK_EQ((size_t)(cs.upper_bound(k) - cs.begin()), hi, w + " upper_bound");
   CHECK_EQ((size_t)(s.upper_bound(k) - s.begin()), hi, w + " upper_bound");
   CHECK_EQ((size_t)(cs.equal_range(k).first - cs.begin()), lo, w + " equal_range");
   CHECK_EQ((size_t)(cs.equal_range(k).second - cs.begin()), hi, w + " equal_range");
   CHECK_EQ((size_t)(s.equal_range(k).first - s.begin()), lo, w + " equal_range");
   CHECK_EQ((size_t)(s.equal_range(k).second - s.begin()), hi, w + " equal_range");
}

template<class K, class C>
void history(Ctx& c) {
   typedef opengm::RandomAccessSet<K, C> S;
   typedef std::set<K, C> M;
   struct Slot { std::unique_ptr<S> s; std::unique_ptr<M> m; };
   std::vector<Slot> o(2 + (size_t)c.range(0, 1));
   for (auto& x : o) {
      const C cmp = makeOrder<C>(c);
      x.m.reset(new M(cmp));
      switch (c.range(0, 2)) {
         case 0: x.s.reset(new S(cmp)); break;
         case 1: x.s.reset(new S((size_t)c.range(0, 6), cmp)); break;
         case 2: {
            std::vector<K> v((size_t)c.range(0, 6));
            for (auto& e : v) e = key<K>(c);
            x.s.reset(new S(v.begin(), v.end(), cmp));
            x.m.reset(new M(v.begin(), v.end(), cmp));
            break; }
      }
   }
   size_t most = 0;
   const int n = (int)c.range(1, 22);
   for (int k = 0; k < n; ++k) {
      Slot& a = o[(size_t)c.range(0, (long)o.size() - 1)];
      Slot& b = o[(size_t)c.range(0, (long)o.size() - 1)];
      const int op = (int)c.range(0, 13);
      const std::string w = pbt::str("operation ", k, " (", op, ")");
      c.note(pbt::str("op ", op, " on ", (size_t)(&a - &o[0]), "/", (size_t)(&b - &o[0])));
      switch (op) {
         case 0: case 1: case 2: case 3: {
            const K v = key<K>(c);
            auto r = a.s->insert(v); auto q = a.m->insert(v);
            CHECK_EQ(r.second, q.second, w + " inserted");
            CHECK_EQ(*r.first, *q.first, w + " position");
            CHECK_EQ((size_t)(r.first - ((const S&)*a.s).begin()), (size_t)std::distance(a.m->begin(), q.first), w + " position");
            break; }
         case 4: {
            std::vector<K> v((size_t)c.range(0, 8));
            for (auto& e : v) e = key<K>(c);
            a.s->insert(v.begin(), v.end()); a.m->insert(v.begin(), v.end());
            break; }
         case 5: {
            const K v = key<K>(c);
            CHECK_EQ(a.s->erase(v), a.m->erase(v), w + " erased");
            break; }
         case 6: {
            if (a.m->empty()) break;
            const size_t i = (size_t)c.range(0, (long)a.m->size() - 1);
            a.s->erase(a.s->begin() + i); a.m->erase(std::next(a.m->begin(), (long)i));
            break; }
         case 7: {
            const size_t i = (size_t)c.range(0, (long)a.m->size()), j = (size_t)c.range((long)i, (long)a.m->size());
            const S& ca = *a.s;
            a.s->erase(ca.begin() + i, ca.begin() + j); a.m->erase(std::next(a.m->begin(), (long)i), std::next(a.m->begin(), (long)j));
            break; }
         case 8: {
            const K v = key<K>(c);
            const size_t i = (size_t)c.range(0, (long)a.m->size());
            const S& ca = *a.s;
            auto r = a.s->insert(ca.begin() + i, v);
            auto q = a.m->insert(std::next(a.m->begin(), (long)i), v);
            CHECK_EQ(*r, *q, w + " hinted insertion");
            CHECK_EQ((size_t)(r - ca.begin()), (size_t)std::distance(a.m->begin(), q), w + " hinted insertion");
            break; }
         case 9: { a.s->clear(); a.m->clear(); break; }
         case 10: { *a.s = *b.s; *a.m = *b.m; break; }
         case 11: { if (&a == &b) break; a.s.reset(new S(*b.s)); a.m.reset(new M(*b.m)); break; }
         case 12: { if (&a == &b) break; a.s->swap(*b.s); a.m->swap(*b.m); c.label("swap"); break; }
         case 13: { a.s->reserve((size_t)c.range(0, 30)); break; }
      }
      most = std::max(most, a.m->size());
      for (size_t i = 0; i < o.size(); ++i) same(c, *o[i].s, *o[i].m, pbt::str("after ", w, " set ", i));
      const K v = key<K>(c);
      for (size_t i = 0; i < o.size(); ++i) {
         query(c, *o[i].s, *o[i].m, v, pbt::str("after ", w, " set ", i));
         const K u = key<K>(c);
         CHECK_EQ(o[i].s->key_comp()(u, v), o[i].m->key_comp()(u, v), w + " key_comp");
         CHECK_EQ(o[i].s->value_comp()(v, u), o[i].m->value_comp()(v, u), w + " value_comp");
      }
   }
   // reverse iteration
   for (size_t i = 0; i < o.size(); ++i) {
      const S& cs = *o[i].s;
      std::vector<K> r(o[i].m->rbegin(), o[i].m->rend());
      CHECK((std::vector<K>(cs.rbegin(), cs.rend()) == r), "reverse iteration (const)");
      CHECK((std::vector<K>(o[i].s->rbegin(), o[i].s->rend()) == r), "reverse iteration");
      S t; t.insert(key<K>(c));
      t.assignFromSet(*o[i].m);
      CHECK_EQ(t.size(), o[i].m->size(), "assignFromSet");
      CHECK(std::equal(t.begin(), t.end(), o[i].m->begin()), "assignFromSet");
   }
   c.nontrivialIf(n >= 5 && most >= 3);
}
PROP(random_access_set_int, 9000, 250000) { history<int, std::less<int> >(c); }
PROP(random_access_set_sizet, 9000, 250000) { history<size_t, std::less<size_t> >(c); }
PROP(random_access_set_string, 9000, 250000) { history<std::string, std::greater<std::string> >(c); }
PROP(random_access_set_stateful_order, 9000, 250000) { history<int, Order>(c); }
