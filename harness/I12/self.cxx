// The search that fuses the labelings another solver visits.
#include "solve.hxx"
#include <opengm/inference/visitors/visitors.hxx>
#include <opengm/inference/icm.hxx>
#include <opengm/inference/lazyflipper.hxx>
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>
#include <opengm/inference/self_fusion.hxx>
using namespace gen;
using pbt::Ctx;
template<class S> struct Log {
   Ctx& c; const Model& m; bool mult, mx; double last, seen = 0; size_t steps = 0, ends = 0, logs = 0; bool have = false;
   bool worse(double a, double b) { return mx ? a < b : a > b; }
   void begin(S& s) { last = s.value(); } void end(S& s) { look(s); ++ends; }
   size_t operator()(S& s) { look(s); ++steps; return opengm::visitors::VisitorReturnFlag::ContinueInf; }
   void look(S& s) { double v = s.value(); CHECK(!worse(v, last), "value " << v << " after " << last << " in step " << steps); last = v; if (steps > 1 || ends) { std::vector<typename S::LabelType> x; s.arg(x); CHECK_NEAR(m.value(Vec(x.begin(), x.end()), mult), v, 1e-9 * (1 + std::fabs(v)), "value of the current labeling in step " << steps); } }
   void addLog(const std::string& n) { CHECK(n == "infValue", "log " << n); } void log(const std::string&, double v) { ++logs; if (steps > 1) { CHECK(!worse(last, v), "value " << last << " is worse than the solver's " << v); seen = have ? (mx ? std::max(seen, v) : std::min(seen, v)) : v; have = true; } }
};
template<class I, class GM, class ACC> void self(Ctx& c, bool mult, bool mx, const Model& m, typename I::Parameter ip) {
   typedef opengm::SelfFusion<I> S; auto gm = buildAll<GM>(m); double opt = bruteMin(m, mult, mx).value; size_t nth = c.range(1, 3); typename S::Parameter p(nth, S::LazyFlipperFusion, ip, c.range(1, 6)); p.numStopIt_ = c.pick({10, 1, 0, 1000}); S s(gm, p); c.note(pbt::str("every ", nth, " stop ", p.numStopIt_, " subgraphs ", p.maxSubgraphSize_));
   Log<S> log{c, m, mult, mx, 0.0}; int k = c.upTo(2); if (k == 0) s.infer(log); else if (k == 1) s.infer(); else { opengm::visitors::TimingVisitor<S> t(c.range(1, 3), 0, false, true, HUGE_VAL, -1); s.infer(t); CHECK(t.getValues().back() == s.value(), "protocol"); }
   Vec x = argOf(c, s, m, "SelfFusion"); double v = s.value(); CHECK_NEAR(m.value(x, mult), v, 1e-9 * (1 + std::fabs(v)), "value of " << pbt::vec(x)); CHECK(notWorse(opt, v, mx, 1e-9 * (1 + std::fabs(v))), "better than the optimum"); CHECK(notWorse(s.bound(), opt, mx, 1e-9 * (1 + std::fabs(opt))), "bound " << s.bound() << " excludes the optimum " << opt); if (k == 0) { CHECK_EQ(log.ends, size_t(1), "calls of end()"); CHECK(!log.have || notWorse(v, log.seen, mx), "value " << v << " is worse than the solver's " << log.seen); c.labelIf(log.logs > 3, "several fusions"); }
   if (k == 0 && nth == 1 && p.numStopIt_ == 1000) { I alone(gm, ip); alone.infer(); CHECK(notWorse(v, alone.value(), mx, 1e-9 * (1 + std::fabs(v))), "value " << v << " is worse than the solver's result " << alone.value()); c.label("compared"); }
   c.nontrivialIf(m.order() > 1 && m.nConfigs() > 3);
}
template<class G, class ACC> static void inner(Ctx& c, bool mult, bool mx) {
   typedef typename G::All GM; Opt o; o.maxVars = 6; o.maxConfigs = 2000; o.positive = mult; o.maxFactors = 12; Model m = genModel(c, o); c.note(m.str()); std::vector<size_t> st; for (size_t l : m.labels) st.push_back(c.upTo(l - 1));
   switch (c.upTo(3)) {
   case 0: { typedef opengm::ICM<GM, ACC> I; typename I::Parameter p; p.startPoint_ = st; c.label("ICM"); self<I, GM, ACC>(c, mult, mx, m, p); break; }
   case 1: { typedef opengm::LazyFlipper<GM, ACC> I; typename I::Parameter p((size_t)c.range(1, 3)); p.startingPoint_ = st; c.label("flipper"); self<I, GM, ACC>(c, mult, mx, m, p); break; }
   case 2: { typedef opengm::Bruteforce<GM, ACC> I; c.label("exhaustive"); self<I, GM, ACC>(c, mult, mx, m, typename I::Parameter()); break; }
   default: { typedef opengm::BeliefPropagationUpdateRules<GM, ACC> R; typedef opengm::MessagePassing<GM, ACC, R, opengm::MaxDistance> I; typename I::Parameter p(c.range(1, 20), 0.0, c.pick({0.0, 0.5})); p.useNormalization_ = opengm::Tribool::True; c.label("propagation"); self<I, GM, ACC>(c, mult, mx, m, p); break; }
   }
}
PROP(self_fusion, 1500, 50000) { bool mx = c.flip(0.4); if (mx) inner<SumGMs, opengm::Maximizer>(c, false, mx); else inner<SumGMs, opengm::Minimizer>(c, false, mx); }
PROP(self_fusion_product, 700, 20000) { bool mx = c.flip(0.6); if (mx) inner<MulGMs, opengm::Maximizer>(c, true, mx); else inner<MulGMs, opengm::Minimizer>(c, true, mx); }
