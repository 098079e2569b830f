// Bounds and labelings of the solvers that decompose a pairwise model into chains.
#include "pairwise.hxx"
#include <cstring>
#include <opengm/inference/trws/trws_trws.hxx>
#include <opengm/inference/trws/trws_adsal.hxx>
#include <opengm/inference/trws/smooth_nesterov.hxx>
#include <opengm/inference/visitors/visitors.hxx>
using namespace gen;
using pbt::Ctx;
struct Quiet { std::ostringstream os; std::streambuf* old; Quiet() : old(std::cout.rdbuf(os.rdbuf())) {} ~Quiet() { std::cout.rdbuf(old); } };
template<class S> struct Watch {
   Ctx& c; double opt, sg; bool monotone; double last = -HUGE_VAL, lastValue = HUGE_VAL; size_t steps = 0, ends = 0;
   Watch(Ctx& ctx, double o, double sign, bool mono) : c(ctx), opt(sign * o), sg(sign), monotone(mono) {}
   void see(S& s) { double b = sg * s.bound(), v = sg * s.value(), t = 1e-7 * (1 + std::fabs(opt)); if (b != b || std::fabs(b) == HUGE_VAL) b = last; CHECK(b <= opt + t, "bound " << b << " beyond the optimum " << opt << " in step " << steps); CHECK(!(v < opt - t), "value " << v << " below the optimum " << opt); if (monotone) { CHECK(b >= last - t, "the bound falls from " << last << " to " << b); CHECK(!(v > lastValue + t), "the value rises from " << lastValue << " to " << v); } last = b; lastValue = v; }
   void begin(S&) {} size_t operator()(S& s) { ++steps; see(s); return opengm::visitors::VisitorReturnFlag::ContinueInf; } void end(S& s) { see(s); ++ends; } void addLog(const std::string&) {} void log(const std::string&, double) {}
};
template<class S> void judge(Ctx& c, S& s, const Pairwise& q, double tight, const char* what) {
   typedef typename S::AccumulationType ACC; bool mx = ACC::bop(1, 0); double sg = mx ? -1 : 1, opt = bruteMin(q.m, false, mx).value, t = 1e-7 * (1 + std::fabs(opt)); bool watch = c.flip(), mono = !std::strcmp(what, "TRWSi"); opengm::InferenceTermination r; Quiet quiet;
   if (watch) { Watch<S> w(c, opt, sg, mono); r = s.infer(w); CHECK_EQ(w.ends, size_t(1), what << ": calls of end()"); } else r = s.infer();
   CHECK(r == opengm::NORMAL || r == opengm::CONVERGENCE, what << ": terminates with " << (int)r); Vec x = argOf(c, s, q.m, what); double v = q.m.sum(x); CHECK_NEAR((double)s.value(), v, t, what << ": value of " << pbt::vec(x)); double b = s.bound(); CHECK(sg * b <= sg * opt + t, what << ": bound " << b << " beyond the optimum " << opt);
   if (q.tree && tight > 0) CHECK(sg * b >= sg * opt - tight, what << ": bound " << b << " on a forest with optimum " << opt);
   c.labelIf(q.tree, "forest"); c.labelIf(std::fabs(v - opt) < t, "optimal"); c.labelIf(std::fabs(opt - b) < 1e-3, "tight"); c.nontrivialIf(q.edges > 1 && q.m.nConfigs() > 3);
}
typedef SumGMs::All GM;
inline Opt dualOpt(Ctx& c) { Opt o; o.dyadic = c.flip(); if (c.flip(0.2)) o.amp = 1; if (c.flip(0.3)) o.kinds = {POTTS, EXPL}; return o; }
template<class ST> typename ST::StructureType structure(Ctx& c, Pairwise& q) {
   int k = c.upTo(4); q = k == 0 ? genPairwise(c, GRID, false, dualOpt(c)) : genPairwise(c, c.pick({CHAIN, TREE, GRID, ANY}), true, dualOpt(c)); c.note(q.m.str());
   auto t = k == 0 ? ST::GRIDSTRUCTURE : k == 1 ? ST::EDGESTRUCTURE : ST::GENERALSTRUCTURE; c.note(ST::getString(t)); c.label(ST::getString(t)); return t;
}
