// Property-based testing engine: random structured generation from a recorded
// choice sequence, integrated shrinking on that sequence, crash/hang isolation
// by forked workers.  A property is
//     PROP(name, quickCases, thoroughCases) { ... c.range(..) ... CHECK(...) }
// Every draw is recorded; a failing case is reproduced and shrunk by replaying
// an edited choice sequence (Hypothesis style).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <sstream>
#include <functional>
#include <exception>
#include <algorithm>
#include <set>

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

const size_t MAX_CHOICES = 1u << 15;
const size_t MAX_LABELS = 96;
const size_t LABEL_LEN = 56;
const size_t MAX_KNOWN = 24;
const size_t MSG_LEN = 6000;
const size_t NOTE_LEN = 24000;
const size_t MAX_DISTINCT = 1u << 21;

struct Shared {
   volatile uint64_t currentCase;
   volatile uint64_t caseStartNs;      // monotonic
   volatile uint64_t done;             // worker finished its range
   volatile uint64_t failed;           // 1: Failure/exception recorded in msg
   uint64_t evaluations, nontrivial, discarded;
   uint64_t nDistinct;
   uint32_t nChoices;
   uint32_t nLabels, nKnown;
   uint32_t nSamples;
   uint64_t sampleCase[8];
   uint64_t choices[MAX_CHOICES];
   char label[MAX_LABELS][LABEL_LEN];
   uint64_t labelCount[MAX_LABELS];
   char known[MAX_KNOWN][LABEL_LEN];
   uint64_t knownCount[MAX_KNOWN];
   char knownMsg[MAX_KNOWN][400];
   char msg[MSG_LEN];
   char notes[NOTE_LEN];
   uint64_t distinct[MAX_DISTINCT];
};

inline uint64_t mix(uint64_t z) {
   z += 0x9e3779b97f4a7c15ull;
   z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
   z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
   return z ^ (z >> 31);
}

class Ctx {
public:
   Ctx(Shared* s, uint64_t seed, bool quietStats)
   : s_(s), state_(seed), replay_(0), pos_(0), quiet_(quietStats), verbose_(false), hash_(1469598103934665603ull), nontrivial_(false) { s_->nChoices = 0; }
   void setReplay(const std::vector<uint64_t>* r, bool modulo=false) { replay_ = r; modulo_ = modulo; }
   void setVerbose(bool v) { verbose_ = v; }
   bool verbose() const { return verbose_; }

   // ---- draws (all record one choice; smaller = simpler)
   // uniform in [0,n]
   uint64_t upTo(uint64_t n) { return record(n, [&]{ return n == ~0ull ? next() : next() % (n + 1); }); }
   long range(long lo, long hi) { return lo + (long)upTo((uint64_t)(hi - lo)); }
   // smaller values more likely (roughly geometric halves)
   long small(long lo, long hi) {
      uint64_t n = hi - lo;
      return lo + (long)record(n, [&]{ uint64_t a = next() % (n + 1), b = next() % (n + 1); return a < b ? a : b; });
   }
   // larger values more likely
   long large(long lo, long hi) {
      uint64_t n = hi - lo;
      return lo + (long)record(n, [&]{ uint64_t a = next() % (n + 1), b = next() % (n + 1); return a > b ? a : b; });
   }
   // signed integer in [-m,m]; encoded 0,1,-1,2,-2,... so that it shrinks to 0
   long sym(long m) { uint64_t v = upTo(2 * (uint64_t)m); return (v & 1) ? (long)((v + 1) / 2) : -(long)(v / 2); }
   bool flip(double p = 0.5) { return record(1, [&]{ return (uint64_t)((next() >> 11) * (1.0 / 9007199254740992.0) < p ? 1 : 0); }) != 0; }
   template<class T> const T& pick(const std::vector<T>& v) { return v[upTo(v.size() - 1)]; }
   template<class T> T pick(std::initializer_list<T> v) { return *(v.begin() + upTo(v.size() - 1)); }
   // weighted choice, index
   size_t weighted(std::initializer_list<int> w) {
      int tot = 0; for (int x : w) tot += x;
      std::vector<int> ws(w);
      return (size_t)record(ws.size() - 1, [&]{ int r = (int)(next() % tot); uint64_t i = 0; while (r >= ws[i]) { r -= ws[i]; ++i; } return i; });
   }
   // random permutation of 0..n-1 (shrinks to identity)
   std::vector<size_t> perm(size_t n) {
      std::vector<size_t> p(n); for (size_t i = 0; i < n; ++i) p[i] = i;
      for (size_t i = 0; i + 1 < n; ++i) std::swap(p[i], p[i + upTo(n - 1 - i)]);
      return p;
   }
   // random subset of size k of 0..n-1, sorted
   std::vector<size_t> subset(size_t n, size_t k) {
      std::vector<size_t> p = perm(n); p.resize(k); std::sort(p.begin(), p.end()); return p;
   }
   std::vector<size_t> subsetOf(size_t n, double p = 0.5) {
      std::vector<size_t> r; for (size_t i = 0; i < n; ++i) if (flip(p)) r.push_back(i); return r;
   }

   // ---- statistics
   void nontrivial() { nontrivial_ = true; }
   void nontrivialIf(bool b) { if (b) nontrivial_ = true; }
   void label(const std::string& l) {
      if (quiet_) return;
      if (!caseLabels_.insert(l).second) return;
      addTo(s_->label, s_->labelCount, s_->nLabels, MAX_LABELS, l);
   }
   void labelIf(bool b, const std::string& l) { if (b) label(l); }
   template<class T> Ctx& note(const T& t) { if (verbose_) os_ << t << "\n"; return *this; }
   std::string notes() const { return os_.str(); }
   std::ostream& os() { return os_; }
   void fail(const std::string& m) { throw Failure{m}; }
   // a defect recorded in known_findings.txt: counted if listed, failure otherwise
   void known(const std::string& tag, const std::string& m) {
      if (knownTags && knownTags->count(tag)) {
         if (!quiet_) {
            size_t i = addTo(s_->known, s_->knownCount, s_->nKnown, MAX_KNOWN, tag);
            if (i < MAX_KNOWN && s_->knownCount[i] == 1) { std::strncpy(s_->knownMsg[i], m.c_str(), 399); }
         }
         return;
      }
      throw Failure{"[" + tag + "] " + m};
   }
   static std::set<std::string>*& knownRef() { return knownTags; }
   static bool& thoroughRef() { static bool t = false; return t; }
   static bool thorough() { return thoroughRef(); }
   bool isNontrivial() const { return nontrivial_; }
   uint64_t hash() const { return hash_; }
   size_t position() const { return pos_; }

private:
   template<class F> uint64_t record(uint64_t bound, F gen) {
      uint64_t v;
      if (replay_) {
         v = pos_ < replay_->size() ? (*replay_)[pos_] : 0;
         if (v > bound) v = modulo_ ? v % (bound + 1) : bound;
      } else v = gen();
      if (pos_ >= MAX_CHOICES) throw Discard();
      s_->choices[pos_++] = v;
      s_->nChoices = (uint32_t)pos_;
      hash_ = (hash_ ^ (v * 0x9e3779b97f4a7c15ull + bound)) * 1099511628211ull;
      hash_ ^= hash_ >> 29;
      return v;
   }
   uint64_t next() { state_ += 0x9e3779b97f4a7c15ull; uint64_t z = state_;
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
   static size_t addTo(char tab[][LABEL_LEN], uint64_t* cnt, uint32_t& n, size_t max, const std::string& l) {
      for (uint32_t i = 0; i < n; ++i) if (!std::strncmp(tab[i], l.c_str(), LABEL_LEN - 1)) { ++cnt[i]; return i; }
      if (n >= max) return max;
      std::strncpy(tab[n], l.c_str(), LABEL_LEN - 1); cnt[n] = 1; ++n; return n - 1;
   }
   Shared* s_; uint64_t state_;
   const std::vector<uint64_t>* replay_; bool modulo_ = false; size_t pos_;
   bool quiet_, verbose_; uint64_t hash_; bool nontrivial_;
   std::set<std::string> caseLabels_;
   std::ostringstream os_;
   static inline std::set<std::string>* knownTags = 0;
};

typedef void (*PropFn)(Ctx&);
struct PropDesc { const char* name; long quick, thorough; PropFn fn; };
inline std::vector<PropDesc>& registry() { static std::vector<PropDesc> r; return r; }
struct Reg { Reg(const char* n, long q, long t, PropFn f) { registry().push_back(PropDesc{n, q, t, f}); } };

int mainImpl(int argc, char** argv);

template<class... A> std::string str(const A&... a) { std::ostringstream o; o.precision(17); (void)std::initializer_list<int>{ ((void)(o << a), 0)... }; return o.str(); }
template<class C> std::string vec(const C& v) { std::ostringstream o; o.precision(17); o << "["; bool f = true; for (auto it = v.begin(); it != v.end(); ++it) { if (!f) o << " "; f = false; o << *it; } o << "]"; return o.str(); }

} // namespace pbt

#define PROP(NAME, Q, T) static void prop_##NAME(pbt::Ctx&); static pbt::Reg reg_##NAME(#NAME, Q, T, prop_##NAME); static void prop_##NAME(pbt::Ctx& c)
#define PBT_S2(x) #x
#define PBT_S(x) PBT_S2(x)
// basename:line keeps messages short
#define PBT_LOC (std::string(__FILE__).substr(std::string(__FILE__).rfind('/') + 1) + ":" PBT_S(__LINE__) ": ")
#define CHECK(COND, MSG) do { if (!(COND)) { std::ostringstream pbt_o; pbt_o.precision(17); pbt_o << PBT_LOC << #COND << " -- " << MSG; throw pbt::Failure{pbt_o.str()}; } } while (0)
#define CHECK_EQ(A, B, MSG) do { auto pbt_a = (A); auto pbt_b = (B); if (!(pbt_a == pbt_b)) { std::ostringstream pbt_o; pbt_o.precision(17); pbt_o << PBT_LOC << #A << " == " << #B << " : got " << pbt_a << " expected " << pbt_b << " -- " << MSG; throw pbt::Failure{pbt_o.str()}; } } while (0)
#define CHECK_NEAR(A, B, TOL, MSG) do { double pbt_a = (double)(A), pbt_b = (double)(B), pbt_t = (TOL); bool pbt_ok = (pbt_a == pbt_b) || std::fabs(pbt_a - pbt_b) <= pbt_t * (1.0 + std::fabs(pbt_b)); if (!pbt_ok) { std::ostringstream pbt_o; pbt_o.precision(17); pbt_o << PBT_LOC << #A << " ~= " << #B << " : got " << pbt_a << " expected " << pbt_b << " -- " << MSG; throw pbt::Failure{pbt_o.str()}; } } while (0)
#define CHECK_KNOWN(TAG, COND, MSG) do { if (!(COND)) { std::ostringstream pbt_o; pbt_o.precision(17); pbt_o << PBT_LOC << #COND << " -- " << MSG; c.known(TAG, pbt_o.str()); } } while (0)
