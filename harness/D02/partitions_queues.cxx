// D02: disjoint-set structures are partitions; queues are queues; SparseFunction's container is a map with a default
#include "pbt.hxx"
#include <opengm/opengm.hxx>
using pbt::Ctx;
#include <opengm/datastructures/partition.hxx>
#include <opengm/utilities/disjoint-set.hxx>
#include <opengm/utilities/queues.hxx>
#include <opengm/datastructures/sparsemarray/sparsemarray.hxx>
#include <deque>
#include <map>
#include <memory>
#include <unordered_map>
#include <numeric>
#include <set>
#include <algorithm>

// ---------------------------------------------------------------- partitions of 0..n-1
struct Sets { // reference: class number of every element
   std::vector<size_t> cls;
   void reset(size_t n) { cls.resize(n); std::iota(cls.begin(), cls.end(), 0); }
   void insert(size_t k) { size_t m = 0; for (size_t x : cls) m = std::max(m, x + 1); for (size_t i = 0; i < k; ++i) cls.push_back(m + i); }
   void merge(size_t a, size_t b) { size_t x = cls[a], y = cls[b]; for (size_t& z : cls) if (z == y) z = x; }
   size_t count() const { return std::set<size_t>(cls.begin(), cls.end()).size(); }
   size_t size(size_t i) const { return std::count(cls.begin(), cls.end(), cls[i]); }
};
template<class T>
void checkLabeling(const std::map<T, T>& rl, const std::vector<size_t>& rep, const Sets& m, const std::string& w) {
   // the representatives in ascending order are numbered 0, 1, 2, ...
   CHECK_EQ(rl.size(), m.count(), w + " representativeLabeling size");
   size_t k = 0;
   for (auto& e : rl) {
      CHECK_EQ((size_t)e.second, k, w + " representativeLabeling numbers"); ++k;
      CHECK((size_t)e.first < m.cls.size() && rep[(size_t)e.first] == (size_t)e.first, w + " labeled a non-representative");
   }
}
template<class T>
void checkPartition(opengm::Partition<T>& p, const Sets& m, bool mutate, const std::string& w) {
   const opengm::Partition<T>& q = p;
   const size_t n = m.cls.size();
   CHECK_EQ((size_t)q.numberOfElements(), n, w + " numberOfElements");
   CHECK_EQ((size_t)q.numberOfSets(), m.count(), w + " numberOfSets");
   std::vector<size_t> rep(n);
   for (size_t i = 0; i < n; ++i) {
      rep[i] = mutate ? (size_t)p.find(T(i)) : (size_t)q.find(T(i));
      CHECK(rep[i] < n && m.cls[rep[i]] == m.cls[i], pbt::str(w, " find(", i, ") = ", rep[i], " is not in the element's set"));
   }
   for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j)
      CHECK_EQ(rep[i] == rep[j], m.cls[i] == m.cls[j], pbt::str(w, " representatives of ", i, " and ", j));
   std::vector<T> r(m.count() + 1, T(77));
   q.representatives(r.begin());
   CHECK_EQ((size_t)r.back(), (size_t)77, w + " too many representatives");
   std::set<size_t> want(rep.begin(), rep.end()); size_t k = 0;
   for (size_t x : want) CHECK_EQ((size_t)r[k++], x, w + " representatives");
   std::map<T, T> rl; rl[T(3)] = T(9);
   q.representativeLabeling(rl);
   checkLabeling<T>(rl, rep, m, w);
   std::vector<T> el(n + 1, T(99));
   q.elementLabeling(el.begin());
   CHECK_EQ((size_t)el[n], (size_t)99, w + " elementLabeling wrote too much");
   for (size_t i = 0; i < n; ++i) CHECK_EQ((size_t)el[i], (size_t)rl[T(rep[i])], pbt::str(w, " elementLabeling of ", i));
}
template<class T>
void partitions(Ctx& c) {
   typedef opengm::Partition<T> P;
   std::vector<P> ps; std::vector<Sets> ms;
   auto create = [&] { Sets m; if (c.flip(0.2)) { ps.push_back(P()); m.reset(0); } else { size_t n = c.upTo(12); ps.push_back(P(T(n))); m.reset(n); c.note(pbt::str("new ", n)); } ms.push_back(m); };
   create(); create();
   size_t merges = 0; const size_t ops = c.upTo(25);
   for (size_t o = 0; o < ops; ++o) {
      size_t i = c.upTo(1), j = c.upTo(1);
      const std::string w = pbt::str("op ", o);
      switch (c.weighted({10, 2, 1, 1, 3})) {
      case 0: { size_t n = ms[i].cls.size(); if (!n) break; size_t a = c.upTo(n - 1), b = c.upTo(n - 1); c.note(pbt::str(i, ".merge ", a, " ", b)); ps[i].merge(T(a), T(b)); ms[i].merge(a, b); if (a != b) ++merges; break; }
      case 1: { size_t k = c.upTo(4); c.note(pbt::str(i, ".insert ", k)); ps[i].insert(T(k)); ms[i].insert(k); break; }
      case 2: { size_t n = c.upTo(12); c.note(pbt::str(i, ".reset ", n)); ps[i].reset(T(n)); ms[i].reset(n); break; }
      case 3: c.note(pbt::str(i, " = ", j)); ps[i] = ps[j]; ms[i] = ms[j]; break;
      default: { c.note(pbt::str("copy ", i)); P q(ps[i]); Sets m = ms[i]; size_t n = m.cls.size(); if (n) { size_t a = c.upTo(n - 1), b = c.upTo(n - 1); q.merge(T(a), T(b)); m.merge(a, b); } checkPartition(q, m, c.flip(), w + " copy"); break; }
      }
      for (size_t k = 0; k < 2; ++k) checkPartition(ps[k], ms[k], c.flip(), pbt::str(w, " object ", k));
   }
   c.nontrivialIf(merges >= 3);
}
PROP(partition_sizet, 5000, 120000) { partitions<size_t>(c); }
PROP(partition_uchar, 3000, 80000) { partitions<unsigned char>(c); }
PROP(partition_int, 3000, 80000) { partitions<int>(c); }

template<class T>
void disjoint(Ctx& c) {
   typedef opengm::disjoint_set<T> D;
   std::vector<D> ds; std::vector<Sets> ms;
   for (int k = 0; k < 2; ++k) { size_t n = c.upTo(14); ds.push_back(D(T(n))); Sets m; m.reset(n); ms.push_back(m); c.note(pbt::str("new ", n)); }
   size_t joins = 0; const size_t ops = c.upTo(25);
   auto check = [&](D& d, const Sets& m, const std::string& w) {
      const size_t n = m.cls.size();
      CHECK_EQ((size_t)static_cast<const D&>(d).numberOfSets(), m.count(), w + " numberOfSets");
      if (c.flip()) for (size_t i = 0; i < n; ++i) CHECK_EQ((size_t)d.size(T(i)), m.size(i), pbt::str(w, " size of the set of ", i));
      std::vector<size_t> rep(n);
      for (size_t i = 0; i < n; ++i) { rep[i] = (size_t)d.find(T(i)); CHECK(rep[i] < n && m.cls[rep[i]] == m.cls[i], pbt::str(w, " find ", i)); }
      for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) CHECK_EQ(rep[i] == rep[j], m.cls[i] == m.cls[j], pbt::str(w, " representatives of ", i, " ", j));
      for (size_t i = 0; i < n; ++i) CHECK_EQ((size_t)d.size(T(i)), m.size(i), pbt::str(w, " size of the set of ", i));
      std::map<T, T> rl; rl[T(2)] = T(5); d.representativeLabeling(rl);
      checkLabeling<T>(rl, rep, m, w);
   };
   for (size_t o = 0; o < ops; ++o) {
      size_t i = c.upTo(1), j = c.upTo(1); const std::string w = pbt::str("op ", o);
      switch (c.weighted({10, 1, 2})) {
      case 0: { size_t n = ms[i].cls.size(); if (!n) break; size_t a = c.upTo(n - 1), b = c.upTo(n - 1); c.note(pbt::str(i, ".join ", a, " ", b)); ds[i].join(T(a), T(b)); ms[i].merge(a, b); if (a != b) ++joins; break; }
      case 1: c.note(pbt::str(i, " = ", j)); ds[i] = ds[j]; ms[i] = ms[j]; break;
      default: { D q(ds[i]); Sets m = ms[i]; size_t n = m.cls.size(); if (n) { size_t a = c.upTo(n - 1), b = c.upTo(n - 1); q.join(T(a), T(b)); m.merge(a, b); } check(q, m, w + " copy"); break; }
      }
      for (size_t k = 0; k < 2; ++k) if (c.flip(0.4) || o + 1 == ops) check(ds[k], ms[k], pbt::str(w, " object ", k));
   }
   c.nontrivialIf(joins >= 3);
}
PROP(disjoint_set_sizet, 5000, 120000) { disjoint<size_t>(c); }
PROP(disjoint_set_ushort, 3000, 80000) { disjoint<unsigned short>(c); }

// ---------------------------------------------------------------- queues
template<class T> T item(Ctx& c, size_t k);
template<> int item<int>(Ctx& c, size_t k) { return (int)c.sym(9) * 100 + (int)k; }
template<> std::string item<std::string>(Ctx& c, size_t k) { return pbt::str("item number ", k, " ", c.upTo(9)); }
template<class T>
void fifo(Ctx& c) {
   const size_t cap = c.range(1, 9);
   opengm::FiFoQueue<T> q(cap), other(cap); std::deque<T> m, mo;
   size_t pops = 0; const size_t ops = c.upTo(40);
   for (size_t o = 0; o < ops; ++o) {
      const std::string w = pbt::str("capacity ", cap, " op ", o);
      switch (c.weighted({8, 6, 1, 1})) {
      case 0: if (m.size() < cap) { T t = item<T>(c, o); q.push(t); m.push_back(t); } break;
      case 1: if (!m.empty()) { q.pop(); m.pop_front(); ++pops; } break;
      case 2: q.clear(); m.clear(); break;
      default: std::swap(q, other); std::swap(m, mo); break;
      }
      CHECK_EQ(q.size(), m.size(), w + " size");
      CHECK_EQ(q.empty(), m.empty(), w + " empty");
      if (!m.empty()) CHECK_EQ(q.front(), m.front(), w + " front");
   }
   while (!m.empty()) { CHECK_EQ(q.front(), m.front(), "drain"); q.pop(); m.pop_front(); }
   CHECK(q.empty(), "empty after draining");
   c.nontrivialIf(pops >= 3);
}
PROP(fifo_queue_int, 5000, 120000) { fifo<int>(c); }
PROP(fifo_queue_string, 3000, 80000) { fifo<std::string>(c); }

template<class T, class CMP>
void priorities(Ctx& c) {
   typedef opengm::ChangeablePriorityQueue<T, CMP> Q;
   const size_t cap = c.range(1, 14);
   Q q0(cap); std::unique_ptr<Q> q(new Q(q0)); std::map<int, T> m; CMP less;
   size_t events = 0; const size_t ops = c.upTo(45);
   auto pri = [&] { return T(c.sym(c.flip(0.3) ? 2 : 30)) / T(2); };
   auto best = [&] { T b = m.begin()->second; for (auto& e : m) if (less(e.second, b)) b = e.second; return b; };
   for (size_t o = 0; o < ops; ++o) {
      const std::string w = pbt::str("capacity ", cap, " op ", o);
      auto some = [&] { size_t k = c.upTo(m.size() - 1); auto it = m.begin(); std::advance(it, k); return it->first; };
      switch (c.weighted({10, 5, 4, 4, 1, 1, 1, 2})) {
      case 0: { int i = (int)c.upTo(cap); T p = pri(); if (!m.count(i) && m.size() >= cap) break; c.note(pbt::str("push ", i, " ", p)); if (m.count(i)) ++events; q->push(i, p); m[i] = p; break; }
      case 1: if (!m.empty()) { int i = q->top(); c.note(pbt::str("pop ", i)); q->pop(); m.erase(i); ++events; } break;
      case 2: if (!m.empty()) { int i = some(); T p = pri(); c.note(pbt::str("change ", i, " ", p)); q->changePriority(i, p); m[i] = p; ++events; } break;
      case 3: if (!m.empty()) { int i = some(); c.note(pbt::str("delete ", i)); q->deleteItem(i); m.erase(i); ++events; } break;
      case 4: c.note(pbt::str("reset")); q->reset(); m.clear(); break;
      case 5: { T p = pri(); c.note(pbt::str("setPriorities ", p)); q->setPriorities(p); for (auto& e : m) e.second = p; break; }
      case 6: { c.note(pbt::str("copy")); std::unique_ptr<Q> r(new Q(*q)); if (!q->empty()) q->pop(); q.swap(r); break; }
      default: if (!m.empty()) { int i = some(); c.note(pbt::str("push same ", i)); q->push(i, m[i]); } break;
      }
      const Q& cq = *q;
      CHECK_EQ((size_t)cq.size(), m.size(), w + " size");
      CHECK_EQ(cq.empty(), m.empty(), w + " empty");
      for (int i = 0; i <= (int)cap; ++i) {
         CHECK_EQ(cq.contains(i), m.count(i) > 0, pbt::str(w, " contains ", i));
         if (m.count(i)) CHECK_EQ(cq.priority(i), m[i], pbt::str(w, " priority of ", i));
      }
      if (!m.empty()) {
         CHECK(m.count(cq.top()), w + " top is not an element");
         CHECK_EQ(cq.topPriority(), best(), w + " topPriority");
         CHECK_EQ(m[cq.top()], best(), w + " priority of top");
      }
   }
   while (!m.empty()) { int i = q->top(); CHECK(m.count(i) && m[i] == best(), "drain order"); m.erase(i); q->pop(); }
   CHECK(q->empty(), "empty after draining");
   c.nontrivialIf(events >= 3);
}
PROP(priority_queue_min, 6000, 150000) { priorities<double, std::less<double> >(c); }
PROP(priority_queue_max, 4000, 100000) { priorities<float, std::greater<float> >(c); }

// ---------------------------------------------------------------- sparse arrays
template<class F>
void sparse(Ctx& c) {
   typedef typename F::ValueType T; typedef typename F::LabelType L; typedef typename F::KeyType K;
   const size_t dim = c.flip(0.5) ? c.range(1, 4) : c.range(0, 18);
   std::vector<L> shape(dim); size_t tot = 1;
   for (auto& s : shape) { s = L(tot < 3000 ? c.range(1, 4) : tot < 200000 ? c.range(1, 2) : 1); tot *= (size_t)s; }
   const T def = T(c.sym(5));
   F f(shape.begin(), shape.end(), def); std::map<std::vector<L>, T> m;
   F other; // default: dimension 0, value 0
   CHECK_EQ(other.dimension(), (size_t)0, "default constructed"); CHECK_EQ(other.defaultValue(), T(0), "default constructed");
   auto coord = [&] { std::vector<L> x(dim); for (size_t d = 0; d < dim; ++d) x[d] = L(c.upTo((size_t)shape[d] - 1)); return x; };
   const size_t ops = c.upTo(20);
   for (size_t o = 0; o < ops; ++o) {
      const std::string w = pbt::str("shape ", pbt::vec(shape), " op ", o);
      std::vector<L> x = !m.empty() && c.flip(0.2) ? m.begin()->first : coord();
      size_t key = 0, str = 1; for (size_t d = 0; d < dim; ++d) { key += (size_t)x[d] * str; str *= (size_t)shape[d]; }
      switch (c.weighted({8, 1, 1, 1})) {
      case 0: { T v = T(c.sym(9)); c.note(pbt::str("insert ", pbt::vec(x), " ", v)); f.insert(x.begin(), v); m.insert(std::make_pair(x, v)); break; } // as std::map::insert
      case 1: { T v = T(c.sym(9)); c.note(pbt::str("container[", key, "] = ", v)); f.container()[K(key)] = v; m[x] = v; break; }
      case 2: c.note(pbt::str("erase ", key)); f.container().erase(K(key)); m.erase(x); break;
      default: { F g(f); other = g; g.insert(x.begin(), T(55)); f = other; break; }
      }
      const F& q = f;
      CHECK_EQ((size_t)q.dimension(), dim, w); CHECK_EQ(q.size(), tot, w + " size"); CHECK_EQ(q.defaultValue(), def, w);
      for (size_t d = 0; d < dim; ++d) CHECK_EQ((size_t)q.shape(d), (size_t)shape[d], w + " shape");
      CHECK_EQ(q.container().size(), m.size(), w + " number of stored values");
      CHECK_EQ((size_t)q.coordinateToKey(x.begin()), key, w + " coordinateToKey");
      std::vector<size_t> back(dim + 1, 999); q.keyToCoordinate(K(key), back.begin());
      for (size_t d = 0; d < dim; ++d) CHECK_EQ(back[d], (size_t)x[d], w + " keyToCoordinate");
      CHECK_EQ(back[dim], (size_t)999, w + " keyToCoordinate wrote too much");
      CHECK_EQ(q.valueFromKey(K(key)), m.count(x) ? m[x] : def, w + " valueFromKey");
      auto probe = [&](const std::vector<L>& y) { CHECK_EQ(q(y.begin()), m.count(y) ? m[y] : def, pbt::str(w, " value at ", pbt::vec(y))); };
      probe(x); probe(coord()); probe(coord());
      for (auto& e : m) probe(e.first);
   }
   if (tot <= 60) {
      size_t k = 0; std::vector<L> y(dim, L(0));
      for (;;) { CHECK_EQ(f(y.begin()), m.count(y) ? m[y] : def, pbt::str("value at ", pbt::vec(y))); ++k; size_t d = 0; while (d < dim && (size_t)++y[d] == (size_t)shape[d]) y[d++] = L(0); if (d == dim) break; }
   }
   c.labelIf(dim > 16, "dim>16"); c.labelIf(dim > 4, "dim>4");
   c.nontrivialIf(dim >= 2 && !m.empty());
}
PROP(sparse_array_map, 6000, 120000) { sparse<opengm::SparseFunction<double, size_t, size_t> >(c); }
PROP(sparse_array_narrow, 3000, 60000) { sparse<opengm::SparseFunction<float, unsigned, unsigned char> >(c); }
PROP(sparse_array_hash, 3000, 60000) { sparse<opengm::SparseFunction<double, size_t, size_t, std::unordered_map<size_t, double> > >(c); }
