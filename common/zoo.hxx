// One description per solver, judged by two sets of rules: ZOO_I02 (labeling, value and bound) and ZOO_I14 (reproducibility and visitors).
#pragma once
#include "solve.hxx"
#include <opengm/inference/visitors/visitors.hxx>
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>
namespace zoo {
using namespace gen;
using pbt::Ctx;
struct Flags {
   bool mult = false, mx = false;
   double tol = 0;             // for bounds, relative
   bool better = true;         // running again does not return something worse
   bool again = true;          // a second run continues or repeats the first
   bool reset = false;         // reset() brings the solver back to its start
   bool same = true;           // deterministic
   bool stops = true;          // the visitor is asked more than once
   bool early = true;          // a labeling exists when the solver is stopped early
   bool visits = true;         // calls its visitor
   double vtol = 0;
   bool last = true;           // shows its visitor the result at the end
   const char* ops() const { return mult ? (mx ? "*/max" : "*/min") : (mx ? "+/max" : "+/min"); }
};
template<class S> struct Result { Vec x; double value, bound; };
struct Silent { std::ostringstream os; std::streambuf* old; Silent() : old(std::cout.rdbuf(os.rdbuf())) {} ~Silent() { std::cout.rdbuf(old); std::cout.clear(); } };
template<class S> auto resetOf(S& s, int) -> decltype(s.reset(), bool()) { s.reset(); return true; }
template<class S> bool resetOf(S&, long) { return false; }
template<class S> struct Recorder {
   size_t begins = 0, steps = 0, ends = 0, stopAt = 0, late = 0; std::vector<double> values, bounds; std::function<void(S&, const char*)> at;
   void see(S& s, const char* w) { if (ends || (stopAt && steps > stopAt)) ++late; if (!begins) ++late; values.push_back(s.value()); bounds.push_back(s.bound()); if (at) at(s, w); }
   void begin(S& s) { ++begins; see(s, "begin"); }
   size_t operator()(S& s) { ++steps; see(s, "step"); return steps == stopAt ? opengm::visitors::VisitorReturnFlag::StopInfTimeout : opengm::visitors::VisitorReturnFlag::ContinueInf; }
   void end(S& s) { see(s, "end"); ++ends; }
   void addLog(const std::string&) {} void log(const std::string&, double) {}
};
template<class S> Result<S> take(Ctx& c, S& s, const Model& m, const Flags& f, const std::string& what) {
   Result<S> r; r.x = argOf(c, s, m, what.c_str()); r.value = s.value(); r.bound = s.bound(); double v = m.value(r.x, f.mult);
   CHECK(std::fabs(r.value - v) <= f.vtol * (1 + std::fabs(v)) || r.value == v, what << ": reports the value " << r.value << " with the labeling " << pbt::vec(r.x) << " of value " << v); return r;
}
inline bool beyond(double a, double b, const Flags& f, double tol) { double t = tol * (1 + std::fabs(b)); return f.mx ? a > b + t : a < b - t; }   // a is better than b
template<class S, class MAKE> void consistent(Ctx& c, const Model& m, const typename S::GraphicalModelType& gm, MAKE make, const Flags& f, const char* what) {
   double opt = bruteMin(m, f.mult, f.mx).value; std::unique_ptr<S> s(make(gm)); CHECK(&s->graphicalModel() == &gm, "graphicalModel() is not the given model"); CHECK(!s->name().empty(), "no name");
   Silent quiet; bool seen = c.flip(); opengm::InferenceTermination t;
   if (seen) { Recorder<S> r; t = s->infer(r); for (size_t i = 0; i < r.values.size(); ++i) { if (r.values[i] == r.values[i]) CHECK(!beyond(r.values[i], opt, f, 1e-9 + f.vtol), what << ": value " << r.values[i] << " seen by the visitor is better than the optimum " << opt); if (r.bounds[i] == r.bounds[i]) CHECK(!beyond(opt, r.bounds[i], f, f.tol), what << ": the bound " << r.bounds[i] << " seen by the visitor excludes the optimum " << opt); } c.label("observed"); }
   else t = s->infer();
   CHECK(t == opengm::NORMAL || t == opengm::CONVERGENCE || t == opengm::TIMEOUT, what << ": terminates with " << (int)t);
   Result<S> r = take<S>(c, *s, m, f, what); CHECK(r.bound == r.bound, what << ": the bound is not a number"); CHECK(!beyond(opt, r.bound, f, f.tol), what << ": the bound " << r.bound << " excludes the optimum " << opt); CHECK(!beyond(r.value, r.bound, f, f.tol), what << ": the value " << r.value << " lies beyond the bound " << r.bound);
   CHECK(argOf(c, *s, m, what) == r.x, what << ": the second call of arg() differs"); { std::vector<typename S::LabelType> junk(m.n() + 3, 1); s->arg(junk); CHECK_EQ(junk.size(), m.n(), what << ": size of a reused labeling"); CHECK(Vec(junk.begin(), junk.end()) == r.x, what << ": arg() into a used vector"); }
   c.labelIf(r.value == opt, "optimal"); c.nontrivialIf(m.order() > 1 && m.nConfigs() > 3);
}
template<class S> void equal(Ctx& c, const Result<S>& a, const Result<S>& b, const char* what, const std::string& how) {
   CHECK(a.x == b.x, what << " " << how << ": labeling " << pbt::vec(b.x) << " instead of " << pbt::vec(a.x)); CHECK(a.value == b.value || (a.value != a.value && b.value != b.value), what << " " << how << ": value " << b.value << " instead of " << a.value); CHECK(a.bound == b.bound || (a.bound != a.bound && b.bound != b.bound), what << " " << how << ": bound " << b.bound << " instead of " << a.bound);
}
template<class S, class MAKE> void reproducible(Ctx& c, const Model& m, const typename S::GraphicalModelType& gm, MAKE make, const Flags& f, const char* what) {
   typedef typename S::GraphicalModelType GM; Silent quiet; std::unique_ptr<S> first(make(gm)); first->infer(); Result<S> r = take<S>(c, *first, m, f, what);
   auto same = [&](S& s, const char* how) { Result<S> q = take<S>(c, s, m, f, std::string(what) + " " + how); if (f.same) equal(c, r, q, what, how); };
   { std::unique_ptr<S> s(make(gm)); opengm::visitors::EmptyVisitor<S> v; s->infer(v); same(*s, "run again"); }
   { GM other(gm); std::unique_ptr<S> s(make(other)); s->infer(); same(*s, "on a copy"); GM third; third = other; std::unique_ptr<S> u(make(third)); u->infer(); same(*u, "on an assigned model"); }
   Recorder<S> rec; { std::unique_ptr<S> s(make(gm)); s->infer(rec); same(*s, "observed"); CHECK_EQ(rec.begins, size_t(1), what << ": calls of begin()"); CHECK_EQ(rec.ends, size_t(1), what << ": calls of end()"); CHECK_EQ(rec.late, size_t(0), what << ": calls outside begin() and end()"); if (f.last) CHECK(rec.values.back() == s->value() || rec.values.back() != rec.values.back(), what << ": the value seen at the end is " << rec.values.back() << ", the result " << s->value()); }
   { std::unique_ptr<S> s(make(gm)); opengm::visitors::VerboseVisitor<S> v(c.range(1, 4), c.flip()); s->infer(v); same(*s, "with a verbose visitor"); }
   { std::unique_ptr<S> s(make(gm)); size_t nth = c.range(1, 4); opengm::visitors::TimingVisitor<S> v(nth, c.upTo(3), c.flip(), c.flip(), HUGE_VAL, -1.0, c.upTo(2)); s->infer(v); same(*s, "with a timing visitor");
      auto &t = v.getTimes(), &val = v.getValues(), &b = v.getBounds(), &it = v.getIterations(); size_t k = t.size(); CHECK(val.size() == k && b.size() == k && it.size() == k, what << ": lengths of the protocol " << k << " " << val.size() << " " << b.size() << " " << it.size()); CHECK_EQ(v.getConstructionTime().size(), size_t(1), "construction times");
      CHECK(k >= 2, "protocol of " << k << " rows"); CHECK_EQ(it[0], 0.0, "first iteration"); for (size_t i = 1; i < k; ++i) { CHECK(t[i] >= t[i - 1], what << ": time " << t[i] << " after " << t[i - 1]); CHECK(it[i] >= it[i - 1], what << ": iteration " << it[i] << " after " << it[i - 1]); if (i + 1 < k) CHECK_EQ(it[i], double(i * nth), what << ": iteration in row " << i); }
      if (f.same) { CHECK_EQ(k, rec.steps / nth + 2, what << ": rows of the protocol for " << rec.steps << " steps and every " << nth << "th"); for (size_t i = 0; i < k; ++i) { size_t j = i + 1 == k ? rec.values.size() - 1 : i * nth; CHECK(val[i] == rec.values[j] || val[i] != val[i], what << ": value in row " << i); CHECK(b[i] == rec.bounds[j] || b[i] != b[i], what << ": bound in row " << i); } } if (f.last) CHECK(val[k - 1] == s->value() || val[k - 1] != val[k - 1], what << ": last value of the protocol"); }
   if (f.visits && rec.steps) { size_t at = c.range(1, (long)std::min<size_t>(rec.steps, 12)); if (!f.same) at = 1; std::unique_ptr<S> s(make(gm)); Recorder<S> v; v.stopAt = at; s->infer(v); 
      if (f.stops) { CHECK_EQ(v.steps, at, what << ": steps until the visitor's stop"); CHECK_EQ(v.late, size_t(0), what << ": calls after the stop"); } CHECK_EQ(v.ends, size_t(1), what << ": calls of end() when stopped"); if (f.early || std::fabs(s->value()) < HUGE_VAL) take<S>(c, *s, m, f, std::string(what) + " stopped early"); c.label("stopped early");
      if (f.same && f.stops) for (size_t i = 0; i <= at; ++i) CHECK(v.values[i] == rec.values[i] || v.values[i] != v.values[i], what << ": value of step " << i << " of the stopped run");
      std::unique_ptr<S> u(make(gm)); opengm::visitors::TimingVisitor<S> w(1, 0, false, true, HUGE_VAL, HUGE_VAL); u->infer(w); double q = w.getBounds()[1] - w.getValues()[1]; if (f.stops && q == q) { CHECK_EQ(w.getTimes().size(), size_t(3), what << ": rows of a protocol stopped by its gap limit"); if (f.early || std::fabs(u->value()) < HUGE_VAL) take<S>(c, *u, m, f, std::string(what) + " stopped by the gap limit"); } }
   if (f.again) { first->infer(); Result<S> q = take<S>(c, *first, m, f, std::string(what) + " inferred again"); if (f.better) CHECK(!beyond(r.value, q.value, f, 1e-9), what << ": inference again returns the value " << q.value << " after " << r.value); }
   if (f.reset) { resetOf(*first, 0); first->infer(); same(*first, "after reset"); if (c.flip(0.3)) { resetOf(*first, 0); first->infer(); same(*first, "after a second reset"); } }
   c.labelIf(rec.steps > 1, "several steps"); c.nontrivialIf(m.order() > 1 && m.nConfigs() > 3);
}
#ifdef ZOO_I14
#define ZOO zoo::reproducible
#else
#define ZOO zoo::consistent
#endif
inline Opt opts(Ctx& c, const Flags& f) { Opt o; o.maxVars = 6; o.maxLabels = 4; o.maxConfigs = 600; o.positive = f.mult; o.order0 = c.flip(0.4); if (c.flip(0.2)) o.amp = 1; return o; }
inline Vec start(Ctx& c, const Model& m) { Vec x; for (size_t l : m.labels) x.push_back(c.upTo(l - 1)); return x; }
template<class F> void senses(Ctx& c, F fn) { Flags f; f.mult = c.flip(0.4); f.mx = c.flip(0.4); c.label(f.ops());
   if (f.mult) { if (f.mx) fn(MulGMs(), opengm::Maximizer(), f); else fn(MulGMs(), opengm::Minimizer(), f); } else { if (f.mx) fn(SumGMs(), opengm::Maximizer(), f); else fn(SumGMs(), opengm::Minimizer(), f); } }
}
