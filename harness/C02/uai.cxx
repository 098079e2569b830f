// FLAGS: HDF5
// TOOLS: uai2opengm opengm2uai
#include "gen_model.hxx"
#include "tool.hxx"
#include <opengm/graphicalmodel/graphicalmodel_hdf5.hxx>
using namespace gen;
typedef SumGMs::Expl E; typedef SumGMs::All A;
struct UFactor { Vec vars; DVec p; };            // table in the order of the text format: last variable of the scope fastest
struct Uai { Vec labels; std::vector<UFactor> f; };
static size_t uidx(const Uai& u, const UFactor& f, const Vec& x) { size_t k = 0; for (size_t v : f.vars) k = k * u.labels[v] + x[v]; return k; }
static double energy(double p) { return p == 0 ? 1e7 : std::min(-std::log(p), 1e7); }
// words of a text file
static bool parse(pbt::Ctx& c, const std::string& path, Uai& u) {
   std::istringstream s(tool::slurp(path)); std::string w; CHECK((bool)(s >> w) && w == "MARKOV", "the file does not start with MARKOV"); size_t n = 0, m = 0; CHECK((bool)(s >> n), "number of variables"); CHECK(n < 1000, "absurd number of variables"); u.labels.resize(n); for (auto& l : u.labels) CHECK((bool)(s >> l), "label counts");
   CHECK((bool)(s >> m), "number of factors"); CHECK(m < 1000, "absurd number of factors"); u.f.resize(m); for (auto& f : u.f) { size_t k = 0; CHECK((bool)(s >> k), "factor arity"); CHECK(k <= n, "absurd arity"); f.vars.resize(k); for (auto& v : f.vars) { CHECK((bool)(s >> v), "factor scope"); CHECK(v < n, "scope names variable " << v); } }
   for (auto& f : u.f) { size_t k = 0, want = 1; CHECK((bool)(s >> k), "table size"); for (size_t v : f.vars) want *= u.labels[v]; CHECK_EQ(k, want, "table size"); f.p.resize(k); for (auto& p : f.p) CHECK((bool)(s >> p), "table entry"); }
   CHECK(!(bool)(s >> w), "text after the last table: " << w); return true;
}
static bool parseOk(pbt::Ctx& c, const std::string& path, Uai& u) { return parse(c, path, u); }
template<class GM> static void checkModel(pbt::Ctx& c, const GM& g, const Uai& u, double tol, const char* what) {
   CHECK_EQ((size_t)g.numberOfVariables(), u.labels.size(), what << ": variables"); for (size_t v = 0; v < u.labels.size(); ++v) CHECK_EQ((size_t)g.numberOfLabels(v), u.labels[v], what << ": labels of variable " << v); CHECK_EQ((size_t)g.numberOfFactors(), u.f.size(), what << ": factors");
   size_t budget = 300; forAll(u.labels, [&](const Vec& x0) { if (!budget) return; --budget; Vec x(x0); double e = 0; for (auto& f : u.f) e += energy(f.p[uidx(u, f, x)]); if (x.empty()) x.push_back(0); double s = 1; for (auto& f : u.f) s = std::max(s, std::fabs(energy(f.p[uidx(u, f, x)]))); CHECK_NEAR((double)g.evaluate(x.begin()), e, tol * s, what << ": energy of " << pbt::vec(x0)); });
}
static Uai genUai(pbt::Ctx& c) {
   Uai u; size_t n = c.range(1, 5); for (size_t v = 0; v < n; ++v) u.labels.push_back(c.weighted({1, 5, 4, 2}) + 1); size_t m = c.range(0, 6); c.labelIf(m == 0, "no factors");
   for (size_t i = 0; i < m; ++i) { UFactor f; size_t k = c.weighted({ 1, 3, 5, 3, 1 }); k = std::min(k, n); f.vars = c.subset(n, k); if (k > 1 && c.flip(0.5)) { auto p = c.perm(k); Vec q; for (auto j : p) q.push_back(f.vars[j]); f.vars = q; } bool sorted = std::is_sorted(f.vars.begin(), f.vars.end()); c.labelIf(!sorted, "unsorted scope"); c.labelIf(k == 0, "constant factor"); c.labelIf(k > 2, "higher order"); c.labelIf(k > 2 && !sorted, "unsorted higher order");
      c.nontrivialIf(k > 1); size_t s = 1; for (size_t v : f.vars) s *= u.labels[v]; for (size_t j = 0; j < s; ++j) { double p; switch (c.weighted({ 6, 2, 1, 1 })) { case 0: p = (double)c.range(1, 40) / 8; break; case 1: p = std::exp((double)c.sym(40) / 4); break; case 2: p = 0; c.label("zero probability"); break; default: p = std::exp((double)c.sym(300)); } f.p.push_back(p); } u.f.push_back(f); }
   return u;
}
static std::string text(pbt::Ctx& c, const Uai& u) {
   std::ostringstream o; o.precision(17); int sp = (int)c.upTo(3); auto sep = [&] { return sp == 0 ? " " : sp == 1 ? "\n" : sp == 2 ? "  " : "\t"; }; if (c.flip(0.2)) o << "  "; o << "MARKOV"; if (c.flip(0.2)) o << " "; o << "\n" << u.labels.size() << "\n"; for (size_t l : u.labels) o << l << sep(); o << "\n" << u.f.size() << "\n";
   for (auto& f : u.f) { o << f.vars.size(); for (size_t v : f.vars) o << sep() << v; o << "\n"; if (c.flip(0.1)) o << "\n"; }
   bool trailing = c.flip(0.8); for (size_t i = 0; i < u.f.size(); ++i) { o << "\n" << u.f[i].p.size() << "\n"; for (size_t j = 0; j < u.f[i].p.size(); ++j) { o << u.f[i].p[j]; if (j + 1 < u.f[i].p.size()) o << (c.flip(0.2) ? "\n" : sep()); } if (i + 1 < u.f.size() || trailing) o << "\n"; }
   c.labelIf(!trailing, "no newline at the end"); return o.str();
}
PROP(from_text, 2400, 60000) {
   Uai u = genUai(c); std::string t = text(c, u); c.note(t); tool::Dir d; std::string in = d.file("m.uai"), out = d.file("m.h5"); tool::spit(in, t); tool::Result r = tool::run(d, "uai2opengm", { in, out }, 8); CHECK(r.ok(), "uai2opengm: " << r.str());
   E g; opengm::hdf5::load(g, out, "gm"); checkModel(c, g, u, 1e-9, "converted model");
   for (size_t i = 0; i < u.f.size(); ++i) { Vec s(u.f[i].vars); std::sort(s.begin(), s.end()); CHECK_EQ((size_t)g[i].numberOfVariables(), s.size(), "order of factor " << i); for (size_t j = 0; j < s.size(); ++j) CHECK_EQ((size_t)g[i].variableIndex(j), s[j], "scope of factor " << i); }
}
static Model genM(pbt::Ctx& c) { Opt o; o.minVars = 1; o.maxVars = 5; o.maxOrder = 2; o.maxFactors = 7; o.order0 = true; o.dyadic = true; o.amp = c.flip(0.3) ? 800 : 20; o.dupScopes = true; o.shareProb = 0.3; o.kinds = { EXPL, POTTS, POTTSN, POTTSG, TABSD, TSQD }; return genModel(c, o); }
PROP(to_text, 1600, 40000) {
   Model m = genM(c); c.note(m.str()); c.nontrivialIf(m.order() > 1); tool::Dir d; std::string in = d.file("m.h5"), out = d.file("m.uai"); { A g = buildAll<A>(m); opengm::hdf5::save(g, in, "gm"); } tool::Result r = tool::run(d, "opengm2uai", { in, out }, 8); CHECK(r.ok(), "opengm2uai: " << r.str());
   Uai u; parse(c, out, u); CHECK(u.labels == m.labels, "label counts " << pbt::vec(u.labels)); CHECK_EQ(u.f.size(), m.factors.size(), "factors");
   for (size_t i = 0; i < u.f.size(); ++i) { CHECK(u.f[i].vars == m.factors[i].vars, "scope of factor " << i << " is " << pbt::vec(u.f[i].vars)); forAll(m.labels, [&](const Vec& x) { double want = m.factorValue(i, x), p = u.f[i].p[uidx(u, u.f[i], x)]; CHECK(p > 0, "probability " << p << " for the energy " << want); CHECK_NEAR(-std::log(p), want, 1e-5, "factor " << i << " at " << pbt::vec(x)); }); }
   // and back
   std::string back = d.file("b.h5"); r = tool::run(d, "uai2opengm", { out, back }, 8); CHECK(r.ok(), "uai2opengm of the written file: " << r.str()); E g; opengm::hdf5::load(g, back, "gm"); CHECK_EQ((size_t)g.numberOfVariables(), m.n(), "variables after the round trip"); CHECK_EQ((size_t)g.numberOfFactors(), m.factors.size(), "factors after the round trip");
   forAll(m.labels, [&](const Vec& x) { CHECK_NEAR((double)g.evaluate(x.begin()), m.sum(x), 1e-5 * (1 + m.factors.size()), "energy after the round trip of " << pbt::vec(x)); });
}
// what the text format cannot express is refused, not converted into another model
PROP(refusals, 600, 6000) {
   tool::Dir d; c.nontrivial();
   if (c.flip()) { c.label("higher order to text"); Opt o; o.minVars = 3; o.maxVars = 5; o.maxOrder = 4; o.maxFactors = 5; o.kinds = { EXPL, POTTSN, POTTSG }; Model m = genModel(c, o); Func f; f.shape = { m.labels[0], m.labels[1], m.labels[2] }; f.kind = POTTSN; f.p = { 0, 1 }; m.funcs.push_back(f); m.factors.push_back({ m.funcs.size() - 1, { 0, 1, 2 } }); c.note(m.str()); std::string in = d.file("m.h5"), out = d.file("m.uai"); { A g = buildAll<A>(m); opengm::hdf5::save(g, in, "gm"); }
      tool::Result r = tool::run(d, "opengm2uai", { in, out }, 8); CHECK(!r.crashed(), "opengm2uai: " << r.str()); CHECK(r.status != 0, "opengm2uai reports success for a factor of order three"); }
   else { c.label("other network type"); Uai u = genUai(c); std::string t = text(c, u); size_t p = t.find("MARKOV"); t.replace(p, 6, c.pick({ "BAYES", "MARKOW", "", "markov" })); c.note(t); std::string in = d.file("m.uai"), out = d.file("m.h5"); tool::spit(in, t); tool::Result r = tool::run(d, "uai2opengm", { in, out }, 8); CHECK(!r.crashed(), "uai2opengm: " << r.str()); CHECK(r.status != 0, "uai2opengm accepts a network that is not of type MARKOV"); }
}
