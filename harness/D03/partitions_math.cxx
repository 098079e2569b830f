// D03: set partitions and their numbering, sorting helpers, integer powers, three-valued logic, functors
#include "pbt.hxx"
#include <opengm/opengm.hxx>
#include <opengm/utilities/partitions.hxx>
#include <opengm/utilities/unsigned_integer_pow.hxx>
#include <opengm/utilities/tribool.hxx>
#include <opengm/utilities/functors.hxx>
#include <opengm/datastructures/fast_sequence.hxx>
#include <opengm/utilities/sorting.hxx>
#include <opengm/utilities/indexing.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
#include <opengm/operations/adder.hxx>
#include <deque>
#include <list>
#include <set>
#include <sstream>
using pbt::Ctx;
typedef std::vector<size_t> V;

// canonical labeling of a set partition: every element gets the smallest element of its set
template<class T> V canon(const std::vector<T>& l) { V r(l.size()); for (size_t i = 0; i < l.size(); ++i) { r[i] = i; for (size_t j = 0; j < i; ++j) if (l[j] == l[i]) { r[i] = j; break; } } return r; }
static void rgs(size_t i, size_t n, size_t mx, V& cur, std::vector<V>& out) { if (i == n) { out.push_back(cur); return; } for (size_t k = 0; k <= mx; ++k) { cur[i] = k; rgs(i + 1, n, std::max(mx, k + 1), cur, out); } }
static std::vector<V> allPartitions(size_t n) { std::vector<V> o; V cur(n); rgs(0, n, 0, cur, o); return o; }

template<class I, class L>
void partitionNumbers(Ctx& c, size_t maxN) {
   // a history over several orders: the table is shared and grows
   opengm::Partitions<I, L> P;
   const int steps = (int)c.range(1, 4);
   size_t built = 0;
   static size_t everBuilt = 0; // the table is static
   for (int k = 0; k < steps; ++k) {
      const size_t n = (size_t)c.range(1, (long)maxN);
      c.note(pbt::str("order ", n));
      const std::vector<V> all = allPartitions(n);
      CHECK_EQ((size_t)P.BellNumber(n), all.size(), "Bell number");
      if (c.flip()) P.resize(n);
      std::vector<L> l(n); for (auto& x : l) x = (L)c.range(0, 5);
      // label2Index is a numbering: equal for equal partitions, different for different ones, inverse of getPartition
      const size_t idx = c.flip() ? P.label2Index(l) : P.label2Index(l.begin(), n);
      CHECK_EQ(idx, P.label2Index(l.begin(), n), "both overloads");
      CHECK_EQ(P.label2Number(l), P.label2Number(l.begin(), n), "both overloads");
      CHECK(idx < all.size(), "index below the Bell number");
      CHECK_EQ(P.getPartition(idx), P.label2Number(l), "partition number at the index");
      CHECK_EQ(P.number2Index(P.label2Number(l)), idx, "number2Index");
      std::vector<L> back(n, (L)9); P.getPartition(idx, back);
      CHECK(canon(back) == canon(l), "labels of the partition with this index");
      std::set<size_t> seen;
      for (const V& p : all) {
         std::vector<L> q(p.begin(), p.end());
         const size_t i = P.label2Index(q);
         CHECK(i < all.size() && seen.insert(i).second, "the indices of all partitions are distinct and below the Bell number");
         std::vector<size_t> r(n, 9); P.getPartition(i, r);
         CHECK(canon(r) == canon(p), "index and partition are inverse");
      }
      for (size_t i = 1; i < all.size(); ++i) CHECK(P.getPartition(i - 1) < P.getPartition(i), "partition numbers ascend");
      // bits that are not transitive denote no partition
      if (n >= 3) { CHECK_EQ(P.number2Index((I)3), (size_t)-1, "not a partition"); }
      built = std::max(built, n);
      everBuilt = std::max(everBuilt, n);
   }
   c.nontrivialIf(built >= 3);
}
PROP(partitions_sizet, 1500, 10000) { partitionNumbers<size_t, size_t>(c, Ctx::thorough() ? 7 : 6); }
PROP(partitions_unsigned, 1500, 10000) { partitionNumbers<unsigned, unsigned char>(c, 6); }
PROP(partitions_large_orders, 6, 12) {
   const size_t n = (size_t)c.range(7, Ctx::thorough() ? 9 : 8);
   opengm::Partitions<size_t, size_t> P;
   std::vector<V> all = allPartitions(n); std::vector<bool> seen(all.size(), false);
   CHECK_EQ((size_t)P.BellNumber(n), all.size(), "Bell number");
   P.resize(n);
   std::vector<size_t> numbers; for (size_t i = 0; i < all.size(); ++i) numbers.push_back(P.getPartition(i));
   std::sort(all.begin(), all.end());
   std::vector<size_t> want; for (const V& p : all) want.push_back(P.label2Number(p));
   std::sort(want.begin(), want.end());
   CHECK(numbers == want, "the table holds every partition number once, ascending");
   c.nontrivial();
}
PROP(partition_order_limit, 200, 1000) {
   // an order whose pairs do not fit the index type is rejected
   opengm::Partitions<unsigned char, size_t> P;
   const size_t n = (size_t)c.range(1, 8); c.note(pbt::str("order ", n));
   bool thrown = false;
   try { P.resize(n); } catch (const std::runtime_error&) { thrown = true; }
   CHECK_EQ(thrown, n * (n - 1) / 2 > 8, "rejected exactly if the pairs do not fit");
   c.nontrivialIf(n >= 3);
}

PROP(integer_power, 20000, 300000) {
   const size_t e = (size_t)c.range(0, 64);
   size_t b = (size_t)c.weighted({1, 1, 3, 3}); if (b >= 2) b = (size_t)c.large(2, e < 3 ? 2000000 : (e < 8 ? 200 : 12));
   size_t want = 1; bool over = false;
   for (size_t i = 0; i < e; ++i) { if (b && want > (size_t)-1 / b) over = true; want *= b; }
   c.note(pbt::str(b, "^", e)); c.labelIf(over, "modulo 2^64");
   CHECK_EQ(opengm::unsignedIntegerPow(b, e), want, "power");
   c.nontrivialIf(b >= 2 && e >= 2);
}

PROP(three_valued_logic, 20000, 300000) {
   typedef opengm::Tribool T;
   const T::State st[3] = {T::False, T::True, T::Maybe};
   // history: value s is tracked by the model
   T t; T::State m = T::Maybe;
   CHECK(t.maybe(), "default is Maybe");
   const int n = (int)c.range(1, 8);
   for (int k = 0; k < n; ++k) {
      const int op = (int)c.range(0, 8); const T::State s = st[c.range(0, 2)];
      c.note(pbt::str("op ", op, " ", (int)s));
      switch (op) {
         case 0: t = s; m = s; break;
         case 1: t = T(s); m = s; break;
         case 2: { const bool b = s == T::True; t = b; m = b ? T::True : T::False; break; }
         case 3: { const bool b = s == T::True; t = T(b); m = b ? T::True : T::False; break; }
         case 4: t = (int)s; m = s; break;
         case 5: { const int i = (int)c.range(1, 4); t = T(i); m = T::True; break; }
         case 6: t &= s; m = (m == T::False || s == T::False) ? T::False : ((m == T::True || s == T::True) ? T::True : T::Maybe); break;
         case 7: { T u(t); const T v(u); u = T::Maybe; t = v; break; }
         case 8: { const T& r = t; t = r; break; }
      }
      CHECK_EQ((bool)t, m == T::True, "conversion to bool");
      CHECK_EQ(!t, m == T::False, "negation");
      CHECK_EQ(t.maybe(), m == T::Maybe, "maybe");
      CHECK_EQ(t == true, m == T::True, "== true"); CHECK_EQ(t == false, m == T::False, "== false");
      CHECK_EQ(t != true, m != T::True, "!= true"); CHECK_EQ(t != false, m != T::False, "!= false");
      for (T::State x : st) {
         CHECK_EQ(t == x, m == x, "== state"); CHECK_EQ(t != x, m != x, "!= state");
         CHECK_EQ(t == (int)x, m == x, "== int");
         CHECK_EQ(t == T(x), m == x, "== Tribool"); CHECK_EQ(t != T(x), m != x, "!= Tribool");
         const T cx(x); CHECK_EQ(cx == t, m == x, "Tribool == Tribool"); CHECK_EQ(cx != t, m != x, "Tribool != Tribool");
      }
      std::ostringstream o; o << t; CHECK_EQ(o.str(), pbt::str((int)m), "printed");
   }
   c.nontrivialIf(n >= 3);
}

PROP(sorting_helpers, 15000, 300000) {
   const size_t n = (size_t)c.range(0, 9);
   std::vector<int> a(n), b(n); for (size_t i = 0; i < n; ++i) { a[i] = (int)c.range(-4, 6); b[i] = (int)i; }
   c.note(pbt::str("values ", pbt::vec(a)));
   CHECK_EQ(opengm::isSorted(a.begin(), a.end()), std::is_sorted(a.begin(), a.end()), "isSorted");
   std::list<int> al(a.begin(), a.end());
   CHECK_EQ(opengm::isSorted(al.begin(), al.end()), std::is_sorted(a.begin(), a.end()), "isSorted on a list");
   std::vector<int> s(a); std::sort(s.begin(), s.end());
   CHECK(opengm::isSorted(s.begin(), s.end()), "sorted sequence");
   // doubleSort keeps the pairs together
   std::vector<int> x(a), y(b);
   if (c.flip()) opengm::doubleSort(x.begin(), x.end(), y.begin());
   else { std::deque<int> dy(y.begin(), y.end()); opengm::doubleSort(x.begin(), x.end(), dy.begin()); y.assign(dy.begin(), dy.end()); }
   CHECK(x == s, "doubleSort sorts the first sequence");
   V yy(y.begin(), y.end()); for (size_t i = 0; i < n; ++i) { CHECK(y[i] >= 0 && (size_t)y[i] < n, "doubleSort permutes the second sequence"); CHECK_EQ(a[(size_t)y[i]], x[i], "doubleSort keeps pairs together"); }
   std::sort(yy.begin(), yy.end()); for (size_t i = 0; i < n; ++i) CHECK_EQ(yy[i], i, "doubleSort permutes the second sequence");
   // search in a strictly ascending sequence
   V u; { std::set<int> st(a.begin(), a.end()); for (int v : st) u.push_back((size_t)(v + 4)); }
   if (!u.empty()) {
      const size_t q = (size_t)c.range(0, 11); size_t pos = 99;
      const bool f = opengm::findInSortedSequence(u.begin(), u.size(), q, pos);
      const auto it = std::find(u.begin(), u.end(), q);
      CHECK_EQ(f, it != u.end(), "findInSortedSequence");
      if (f) CHECK_EQ(pos, (size_t)(it - u.begin()), "findInSortedSequence position");
   }
   if (n) { const size_t i = (size_t)c.range(0, (long)n - 1); CHECK_EQ(opengm::iteratorAt(a.begin(), i), a[i], "iteratorAt"); }
   bool eq = true; for (int v : a) eq = eq && v == a[0];
   CHECK_EQ(opengm::isEqualValueVector(a), eq, "isEqualValueVector");
   c.nontrivialIf(n >= 3);
}

struct Sub { double operator()(double a, double b) { return a - b; } };
PROP(functors, 15000, 300000) {
   const size_t n = (size_t)c.range(1, 8);
   std::vector<double> a(n); for (auto& v : a) v = (double)c.range(-12, 12) / 2;
   c.note(pbt::str("values ", pbt::vec(a)));
   const double mn = *std::min_element(a.begin(), a.end()), mx = *std::max_element(a.begin(), a.end());
   opengm::MinMaxFunctor<double> m; for (double v : a) m(v);
   CHECK_EQ(m.min(), mn, "MinMaxFunctor"); CHECK_EQ(m.max(), mx, "MinMaxFunctor");
   const double lo = (double)c.range(-8, 0), hi = lo + (double)c.range(0, 8);
   opengm::MinMaxFunctor<double> m2(lo, hi); for (double v : a) m2(v);
   CHECK_EQ(m2.min(), std::min(lo, mn), "MinMaxFunctor with start"); CHECK_EQ(m2.max(), std::max(hi, mx), "MinMaxFunctor with start");
   { opengm::AccumulationFunctor<opengm::Minimizer, double> f; for (double v : a) f(v); CHECK_EQ(f.value(), mn, "AccumulationFunctor"); }
   { opengm::AccumulationFunctor<opengm::Maximizer, double> f(lo); for (double v : a) f(v); CHECK_EQ(f.value(), std::max(lo, mx), "AccumulationFunctor"); }
   { opengm::AccumulationFunctor<opengm::Adder, double> f; double s = 0; for (double v : a) { f(v); s += v; } CHECK_EQ(f.value(), s, "AccumulationFunctor"); }
   std::vector<double> out(n); opengm::CopyFunctor<std::vector<double>::iterator> cp(out.begin()); for (double v : a) cp(v);
   CHECK(out == a, "CopyFunctor");
   Sub s; opengm::BinaryToUnaryFunctor<double, Sub, true> l(lo, s); opengm::BinaryToUnaryFunctor<double, Sub, false> r(lo, s);
   opengm::SwapArgumemtFunctor<double, Sub> sw(s);
   CHECK_EQ(l(a[0]), lo - a[0], "scalar on the left"); CHECK_EQ(r(a[0]), a[0] - lo, "scalar on the right"); CHECK_EQ(sw(a[0], hi), hi - a[0], "swapped arguments");
   opengm::PowFunctor<double> p(2); CHECK_EQ(p(a[0]), a[0] * a[0], "PowFunctor");
   c.nontrivialIf(n >= 3);
}
