// FLAGS: HDF5
// TOOLS: opengm_min_sum opengm_max_prod opengm_min_sum_small
#include "cli.hxx"
#include <opengm/inference/icm.hxx>
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/astar.hxx>
using namespace cli;
static std::string prog(Ctx& c, bool& mult) { int k = (int)c.upTo(2); mult = k == 2; return k == 0 ? "opengm_min_sum" : k == 1 ? "opengm_min_sum_small" : "opengm_max_prod"; }
static Model model(Ctx& c, bool mult) { Opt o = sumOpts(c); if (mult) { o.positive = true; o.kinds = { EXPL, POTTS, POTTSN }; } Model m = genModel(c, o); c.note(m.str()); return m; }
static void save(Ctx& c, Input& in, const Model& m, bool mult) { if (mult) in.save(c, buildAll<MulGMs::All>(m)); else in.save(c, buildAll<SumGMs::All>(m)); }
// the number a program prints behind a key
static bool printed(const std::string& out, const std::string& key, std::string& v) { size_t p = out.find(key); if (p == std::string::npos) return false; std::istringstream s(out.substr(p + key.size())); return (bool)(s >> v); }
PROP(evaluate, 500, 12000) {
   bool mult; std::string pr = prog(c, mult); Model m = model(c, mult); Input in; save(c, in, m, mult); Vec x = start(c, m); c.note(pr + " at " + pbt::vec(x)); c.nontrivialIf(m.order() > 1 && m.nConfigs() > 3);
   Args a = { c.flip() ? "-e" : "--evaluate", in.vector(c, "x", x), "-m", in.arg(c) }; if (c.flip()) std::rotate(a.begin(), a.begin() + 2, a.end()); tool::Result r = tool::run(in.d, pr, a, 20); CHECK(r.ok(), pr << ": " << r.str()); std::string w; CHECK(printed(r.out, "result: ", w), "no result: " << r.str()); double v = std::atof(w.c_str()), e = m.value(x, mult); CHECK_NEAR(v, e, 1e-6 * std::fabs(e) + 1e-12, pr << ": value of " << pbt::vec(x) << " printed as " << w);
}
PROP(modelinfo, 200, 4000) {
   bool mult; std::string pr = prog(c, mult); Model m = model(c, mult); Input in; save(c, in, m, mult); c.nontrivialIf(m.order() > 1); tool::Result r = tool::run(in.d, pr, { "--modelinfo", "-m", in.arg(c) }, 20); CHECK(r.ok(), pr << ": " << r.str()); auto is = [&](const char* key, const std::string& want) { std::string w; CHECK(printed(r.out, key, w), "no " << key << r.str()); CHECK(w == want, key << w << " instead of " << want); };
   is("Number of Variables   : ", std::to_string(m.n())); is("Number of Factors     : ", std::to_string(m.factors.size())); is("Model-Order           : ", std::to_string(m.order())); size_t lo = *std::min_element(m.labels.begin(), m.labels.end()), hi = *std::max_element(m.labels.begin(), m.labels.end()); is("Number of States      : ", lo == hi ? std::to_string(lo) : "[" + std::to_string(lo) + "," + std::to_string(hi) + "]");
   // the factor graph is acyclic iff its edges are as many as its nodes less its components
   size_t V = m.n() + m.factors.size(), E = 0; std::vector<size_t> up(V); for (size_t i = 0; i < V; ++i) up[i] = i; std::function<size_t(size_t)> find = [&](size_t i) { return up[i] == i ? i : up[i] = find(up[i]); }; bool cyc = false; for (size_t i = 0; i < m.factors.size(); ++i) for (size_t v : m.factors[i].vars) { ++E; size_t p = find(v), q = find(m.n() + i); if (p == q) cyc = true; up[p] = q; } is("Acyclic Model         : ", cyc ? "0" : "1");
}
PROP(help, 60, 300) {
   bool mult; std::string pr = prog(c, mult); tool::Dir d; Args a = { c.flip() ? "-h" : "--help" }; std::string alg; if (c.flip(0.7)) { alg = c.pick({ "ICM", "BRUTEFORCE", "GRAPHCUT", "ALPHAEXPANSION" }); if (c.flip()) a.push_back("-v"); a.push_back("-a"); a.push_back(alg); } c.note(pr + " " + alg); c.nontrivial();
   tool::Result r = tool::run(d, pr, a, 20); CHECK(r.ok(), pr << " " << alg << ": " << r.str()); CHECK(r.out.find(alg.empty() ? "arguments:" : "Description:") != std::string::npos, pr << " " << alg << ": no description: " << r.str());
}
template<class GM, class ACC, class BUILD> static void solve(Ctx& c, Flags f, BUILD build, const Model& m) {
   Input in; Run r; f.prog = f.mult ? "opengm_max_prod" : "opengm_min_sum_small"; int k = (int)c.upTo(f.mult ? 2 : 1);
   if (k == 0) { typedef opengm::ICM<GM, ACC> S; r.alg = "ICM"; typename S::Parameter p; if (c.flip()) { Vec x = start(c, m); p.startPoint_ = x; r.add("-x0", in.vector(c, "x0", x)); } compare<GM, S>(c, m, in, r, f, build, [&](const GM& g) { return new S(g, p); }); }
   if (k == 1) { typedef opengm::Bruteforce<GM, ACC> S; r.alg = "BRUTEFORCE"; f.exact = true; compare<GM, S>(c, m, in, r, f, build, [&](const GM& g) { return new S(g); }); }
   if constexpr (std::is_same<GM, MulGM>::value) if (k == 2) { typedef opengm::AStar<GM, ACC> S; r.alg = "ASTAR"; f.exact = true; typename S::Parameter p; compare<GM, S>(c, m, in, r, f, build, [&](const GM& g) { return new S(g, p); }); }
}
PROP(max_prod, 300, 7000) { Model m = model(c, true); Flags f; f.mult = f.mx = true; solve<MulGM, opengm::Maximizer>(c, f, [&] { return buildAll<MulGMs::All>(m); }, m); }
PROP(min_sum_small, 200, 5000) { Model m = model(c, false); Flags f; solve<SumGM, opengm::Minimizer>(c, f, [&] { return buildAll<SumGMs::All>(m); }, m); }
// what is wrong is reported
PROP(malformed, 600, 10000) {
   bool mult; std::string pr = prog(c, mult); Model m = model(c, mult); Input in; save(c, in, m, mult); c.nontrivial(); std::string mod = in.path + ":" + in.name, out = in.d.file("r.h5"); Args a = { "-m", mod, "-o", out }; auto alg = [&](const char* n) { a.push_back("-a"); a.push_back(n); }; auto vec = [&](const Vec& x, const char* opt) { std::string f = in.d.file("v.txt"); std::ostringstream o; o << "%v\n"; for (size_t v : x) o << v << ";"; o << "\n"; tool::spit(f, o.str()); a.push_back(opt); a.push_back(f + ":v"); }; bool noOut = true;
   switch (c.upTo(13)) {
   case 0: { std::string s = tool::slurp(in.path); size_t n = c.range(0, (long)s.size() - 1); c.label("truncated model file"); c.note(pbt::str("cut to ", n, " of ", s.size(), " bytes")); tool::spit(in.path, s.substr(0, n)); alg("ICM"); break; }
   case 1: c.label("missing model file"); a[1] = in.d.path + "/none.h5:gm"; alg("ICM"); break;
   case 2: c.label("missing dataset"); a[1] = in.path + ":" + c.pick({ "nothing", "gm2", "" }) ; if (a[1].back() == ':' && in.name == "gm") a[1] += "x"; alg("ICM"); break;
   case 3: { c.label("not a model file"); std::string s; size_t n = c.range(0, 2000); for (size_t i = 0; i < n; ++i) s += (char)c.upTo(255); tool::spit(in.path, s); alg("ICM"); break; }
   case 4: c.label("unknown algorithm"); alg(c.pick({ "icm", "NONE", "ICM2", "BRUTE" })); break;
   case 5: c.label("no algorithm"); break;
   case 6: c.label("no model"); a.erase(a.begin(), a.begin() + 2); alg("ICM"); break;
   case 7: c.label("value that is not permitted"); if (mult) { alg("ASTAR"); a.push_back("--heuristic"); a.push_back("BEST"); } else { alg("ALPHAEXPANSION"); a.push_back(c.pick({ "-mf", "--labelInitialType", "--orderType" })); a.push_back("NONE"); } break;
   case 8: { c.label("labeling of a wrong size"); Vec x = start(c, m); if (c.flip() && !x.empty()) x.pop_back(); else x.push_back(0); vec(x, "-e"); break; }
   case 9: { c.label("label out of range"); Vec x = start(c, m); size_t v = c.upTo(x.size() - 1); x[v] = m.labels[v] + c.pick({ 0, 1, 1000000 }); vec(x, "-e"); break; }
   case 10: { c.label("starting point of a wrong size"); Vec x = start(c, m); if (x.size() > 1 && c.flip()) x.pop_back(); else x.push_back(0); vec(x, "-x0"); alg(pr == "opengm_min_sum" && c.flip() ? "LAZYFLIPPER" : "ICM"); break; }
   case 11: c.label("missing vector file"); a.push_back(c.pick({ "-e", "-x0" })); a.push_back(in.d.path + "/" + c.pick({ "none.txt:v", "none.h5:v", "none.h5", "none" })); alg("ICM"); break;
   case 12: { c.label("missing vector"); vec(start(c, m), c.pick({ "-e", "-x0" })); a.back() += "w"; alg("ICM"); break; }
   case 13: { c.label("output that cannot be written"); a[3] = in.d.path + "/none/r." + c.pick({ "h5", "txt" }); alg("ICM"); break; }
   }
   std::string cmd = pr; for (auto& s : a) cmd += " " + s; c.note(cmd); tool::Result r = tool::run(in.d, pr, a, 20); CHECK(!r.crashed(), cmd << ": " << r.str()); CHECK(r.status != 0, cmd << ": reports success: " << r.str()); if (noOut) CHECK(!exists(out), cmd << ": leaves an output file");
}
