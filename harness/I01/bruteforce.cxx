#include "solve.hxx"
#include <opengm/inference/bruteforce.hxx>
using namespace gen;
using pbt::Ctx;

static Opt opts(Ctx& c, bool mult) { Opt o; o.maxVars = 6; o.maxLabels = 4; o.maxFactors = 10; o.maxConfigs = 300; o.maxOrder = c.pick({2, 3, 3, 4}); o.positive = mult; o.dyadic = c.flip(0.3); if (c.flip(0.2)) o.amp = 1; return o; }

template<class OP, class ACC> static void brute(Ctx& c, bool mult, bool mx) {
   Opt o = opts(c, mult); o.zeroValue = mult; Model m = genModel(c, o); if (!mult && c.flip(0.2)) { double inf = mx ? -std::numeric_limits<double>::infinity() : std::numeric_limits<double>::infinity(); double p = c.pick({0.1, 0.5, 1.0}); for (auto& f : m.funcs) if (f.kind == EXPL) for (double& v : f.p) if (c.flip(p)) v = inf; c.label("infinite values"); } c.note(m.str()); Best b = bruteMin(m, mult, mx); typedef GMs<double, OP> G; auto gm = buildAll<typename G::All>(m);
   typedef opengm::Bruteforce<typename G::All, ACC> S; typename S::Parameter p; S s1(gm), s2(gm, p); CHECK_EQ(s2.value(), s1.value(), "value before inference"); CHECK_EQ(s1.value(), (ACC::template neutral<double>()), "value before inference");
   S& s = c.flip() ? s1 : s2; CHECK(s.infer() == opengm::NORMAL, "terminates normally"); Vec x = argOf(c, s, m, "brute force"); CHECK_EQ(m.value(x, mult), b.value, "energy of the returned labeling " << pbt::vec(x)); CHECK_EQ(s.value(), b.value, "reported value");
   std::vector<size_t> y; CHECK(s.arg(y, 2) != opengm::NORMAL, "only one solution is provided");
   if (c.flip(0.3)) { s.reset(); CHECK_EQ(s.value(), (ACC::template neutral<double>()), "value after a reset"); s.infer(); CHECK_EQ(s.value(), b.value, "reported value after a reset"); CHECK_EQ(m.value(argOf(c, s, m, "brute force"), mult), b.value, "energy after a reset"); }
   c.nontrivialIf(m.nConfigs() > b.args.size());
}
PROP(bruteforce, 3000, 60000) { switch (c.upTo(3)) { case 0: brute<opengm::Adder, opengm::Minimizer>(c, false, false); break; case 1: brute<opengm::Adder, opengm::Maximizer>(c, false, true); break; case 2: brute<opengm::Multiplier, opengm::Minimizer>(c, true, false); break; default: brute<opengm::Multiplier, opengm::Maximizer>(c, true, true); } }

