// C03: random number generators stay in their range, reproduce their sequence and draw with the stated weights
#include "pbt.hxx"
#include <opengm/opengm.hxx>
#include <opengm/utilities/random.hxx>
#include <set>
#include <map>
using pbt::Ctx;

template<class T> T lowOf(Ctx& c, bool integer) { if (integer) return T(std::is_signed<T>::value ? c.range(-50, 50) : c.range(0, 50)); return T(c.range(-1000, 1000)) / T(8); }

template<class T>
void uniform(Ctx& c) {
   const bool integer = std::is_integral<T>::value;
   T lo = lowOf<T>(c, integer);
   T hi = lo + (integer ? T(c.range(1, 20)) : T(c.range(1, 400)) / T(16));
   const size_t seed = c.range(0, 1000000), n = c.range(50, 400);
   c.note(pbt::str("low ", lo, " high ", hi, " seed ", seed, " n ", n));
   c.label(integer ? "integer" : "floating");
   c.nontrivialIf(!integer || hi - lo > T(1));
   opengm::RandomUniform<T> r(lo, hi, seed);
   std::vector<T> a(n);
   std::map<T, size_t> seen;
   for (size_t i = 0; i < n; ++i) { a[i] = r(); ++seen[a[i]]; CHECK(a[i] >= lo && a[i] < hi, pbt::str("drew ", a[i], " from [", lo, ",", hi, ")")); }
   opengm::RandomUniform<T> r2(lo, hi, seed);
   for (size_t i = 0; i < n; ++i) { T v = r2(); CHECK(v == a[i], pbt::str("the same seed gave ", v, " instead of ", a[i], " at draw ", i)); }
   // every value is possible: k values, 60 k draws, a value is missed with probability < k e^-60
   if (integer) {
      const size_t k = size_t(hi - lo);
      std::vector<size_t> cnt(k, 0);
      for (size_t i = 0; i < 60 * k; ++i) { T v = r2(); CHECK(v >= lo && v < hi, "out of range"); ++cnt[size_t(v - lo)]; }
      for (size_t i = 0; i < k; ++i) CHECK(cnt[i] > 0, pbt::str("value ", lo + T(i), " never drawn in ", 60 * k, " draws"));
   } else {
      std::vector<size_t> cnt(8, 0);
      for (size_t i = 0; i < 800; ++i) { T v = r2(); CHECK(v >= lo && v < hi, "out of range"); int b = int((double(v) - lo) / (double(hi) - lo) * 8); ++cnt[std::min(7, std::max(0, b))]; }
      for (size_t i = 0; i < 8; ++i) CHECK(cnt[i] > 20, pbt::str("eighth ", i, " of the range drawn ", cnt[i], " times in 800"));
   }
   // moving the range
   T lo2 = lowOf<T>(c, integer), hi2 = lo2 + (integer ? T(c.range(1, 9)) : T(c.range(1, 90)) / T(16));
   r.setLow(lo2); r.setHigh(hi2);
   for (size_t i = 0; i < 50; ++i) { T v = r(); CHECK(v >= lo2 && v < hi2, pbt::str("after setLow, setHigh: drew ", v, " from [", lo2, ",", hi2, ")")); }
   opengm::RandomUniform<T> r3; r3 = r;
   for (size_t i = 0; i < 20; ++i) { T v = r3(); CHECK(v >= lo2 && v < hi2, "an assigned generator keeps its range"); }
   opengm::RandomUniform<T> r4(lo, hi);
   for (size_t i = 0; i < 20; ++i) { T v = r4(); CHECK(v >= lo && v < hi, "the unseeded constructor respects its range"); }
}
PROP(uniform_int, 1500, 30000) { uniform<int>(c); }
PROP(uniform_size_t, 1500, 30000) { uniform<size_t>(c); }
PROP(uniform_long, 800, 20000) { uniform<long>(c); }
PROP(uniform_double, 1500, 30000) { uniform<double>(c); }
PROP(uniform_float, 1500, 30000) { uniform<float>(c); }
PROP(uniform_default_range, 200, 2000) {
   opengm::RandomUniform<double> r; opengm::RandomUniform<float> f; opengm::RandomUniform<int> k;
   c.nontrivial(); c.range(0, 100000);
   for (int i = 0; i < 50; ++i) { double v = r(); float w = f(); CHECK(v >= 0 && v < 1 && w >= 0 && w < 1, "default range is [0,1)"); CHECK(k() == 0, "default integer range holds only zero"); }
}

template<class T, class U>
void weighted(Ctx& c) {
   const size_t k = c.range(1, 8);
   std::vector<U> w(k);
   for (auto& x : w) x = U(c.flip() && k > 1 ? 0 : c.range(1, 16)) * (c.flip() ? U(0.25) : U(3));
   double sum = 0; for (auto x : w) sum += x;
   if (sum == 0) { w[c.range(0, (int)k - 1)] = 1; sum = 1; }
   const size_t seed = c.range(0, 1000000), n = 4000;
   c.note(pbt::str("weights ", pbt::vec(w), " seed ", seed));
   c.nontrivialIf(k > 1);
   opengm::RandomDiscreteWeighted<T, U> r(w.begin(), w.end(), seed);
   std::vector<size_t> cnt(k, 0); std::vector<T> first;
   for (size_t i = 0; i < n; ++i) {
      T v = r();
      CHECK(size_t(v) < k, pbt::str("drew index ", v, " of ", k));
      if (i < 100) first.push_back(v);
      ++cnt[size_t(v)];
   }
   bool lastZero = w[k - 1] == 0;
   for (size_t i = 0; i < k; ++i) {
      const double p = w[i] / sum, s = std::sqrt(n * p * (1 - p));
      if (w[i] == 0 && !(lastZero && i == k - 1)) CHECK(cnt[i] == 0, pbt::str("index ", i, " has weight zero and was drawn ", cnt[i], " times"));
      CHECK(std::fabs(cnt[i] - n * p) <= 7 * s + 3, pbt::str("index ", i, " of weight ", w[i], "/", sum, " drawn ", cnt[i], " times in ", n));
   }
   opengm::RandomDiscreteWeighted<T, U> r2(w.begin(), w.end(), seed);
   for (size_t i = 0; i < first.size(); ++i) CHECK(r2() == first[i], "the same seed gives the same sequence");
   opengm::RandomDiscreteWeighted<T, U> r3(w.begin(), w.end());
   std::fill(cnt.begin(), cnt.end(), 0);
   for (size_t i = 0; i < n; ++i) { T v = r3(); CHECK(size_t(v) < k, "index"); ++cnt[size_t(v)]; }
   for (size_t i = 0; i < k; ++i) {
      const double p = w[i] / sum, s = std::sqrt(n * p * (1 - p));
      CHECK(std::fabs(cnt[i] - n * p) <= 7 * s + 3, pbt::str("without seed: index ", i, " of weight ", w[i], "/", sum, " drawn ", cnt[i], " times in ", n));
   }
}
PROP(weighted_double, 500, 10000) { weighted<size_t, double>(c); }
PROP(weighted_float_int, 300, 6000) { weighted<int, float>(c); }
