// runs a command line program on a generated model file and compares its result with the library's
#pragma once
#include "gen_model.hxx"
#include "solve.hxx"
#include "pairwise.hxx"
#include "tool.hxx"
#include <opengm/graphicalmodel/graphicalmodel_hdf5.hxx>
#include <opengm/inference/visitors/visitors.hxx>
#include <functional>
#include <iostream>
#include <memory>
#include <cmath>
#include <cstdlib>
#include <unistd.h>
namespace cli {
using namespace gen;
using pbt::Ctx;
typedef std::vector<std::string> Args;
typedef Types<double, size_t, size_t> Ty;
// the model types of the programs
typedef opengm::GraphicalModel<double, opengm::Adder, opengm::meta::TypeListGenerator<Ty::Explicit, Ty::Potts, Ty::PottsN, Ty::PottsG, Ty::TSqD, Ty::TAbsD>::type, opengm::DiscreteSpace<size_t, size_t> > SumGM;
typedef opengm::GraphicalModel<double, opengm::Multiplier, opengm::meta::TypeListGenerator<Ty::Explicit, Ty::Potts, Ty::PottsN, Ty::TSqD, Ty::TAbsD>::type, opengm::DiscreteSpace<size_t, size_t> > MulGM;
inline std::vector<int> sumKinds() { return { EXPL, POTTS, POTTSN, POTTSG, TABSD, TSQD }; }
inline Opt sumOpts(Ctx& c) { Opt o; o.maxVars = 6; o.maxLabels = 4; o.maxConfigs = 600; o.order0 = c.flip(0.3); if (c.flip(0.2)) o.amp = 1; o.kinds = sumKinds(); return o; }
inline Vec start(Ctx& c, const Model& m) { Vec x; for (size_t l : m.labels) x.push_back(c.upTo(l - 1)); return x; }
inline std::string num(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
struct Silent { std::ostringstream os; std::streambuf* old; Silent() : old(std::cout.rdbuf(os.rdbuf())) {} ~Silent() { std::cout.rdbuf(old); std::cout.clear(); } };
// a text file with one vector among others
inline std::string textVector(Ctx& c, const std::string& name, const Vec& x) {
   std::ostringstream o; if (c.flip(0.3)) o << "%other\n1; 2; 3; \n"; if (c.flip(0.1)) o << "\n"; o << "%" << name << "\n"; bool sp = c.flip(); for (size_t v : x) o << v << (sp ? "; " : ";"); if (c.flip(0.8)) o << "\n"; if (c.flip(0.2)) o << "\n%more\n4;\n"; return o.str();
}
struct Input {
   tool::Dir d; std::string path, name; 
   template<class G> void save(Ctx& c, const G& g) { path = d.file(c.pick({ "m.h5", "model", "a.b.h5" })); name = c.pick({ "gm", "gm", "other" }); opengm::hdf5::save(g, path, name); }
   std::string arg(Ctx& c) { return name == "gm" && c.flip(0.3) ? path : path + ":" + name; }
   // a vector option: text or HDF5 file
   std::string vector(Ctx& c, const std::string& key, const Vec& x) {
      if (c.flip() && !x.empty()) { std::string f = d.file(key + ".h5"); marray::Vector<size_t> v(x.size()); for (size_t i = 0; i < x.size(); ++i) v(i) = x[i]; hid_t h = marray::hdf5::createFile(f); marray::hdf5::save(h, "vec", v); marray::hdf5::closeFile(h); return f + ":vec"; }
      std::string f = d.file(key + ".txt"); tool::spit(f, textVector(c, "vec", x)); return f + ":vec";
   }
};
inline bool exists(const std::string& p) { return ::access(p.c_str(), F_OK) == 0; }
template<class T> bool readH5(const std::string& f, const std::string& set, std::vector<T>& x) {
   try { hid_t h = marray::hdf5::openFile(f); marray::Vector<T> v; try { marray::hdf5::load(h, set, v); } catch (...) { marray::hdf5::closeFile(h); return false; } marray::hdf5::closeFile(h); x.clear(); for (size_t i = 0; i < v.size(); ++i) x.push_back(v(i)); return true; } catch (...) { return false; }
}
template<class T> bool readText(const std::string& f, const std::string& set, std::vector<T>& x) {
   std::istringstream s(tool::slurp(f)); std::string l; while (std::getline(s, l)) if (l == "%" + set) { if (!std::getline(s, l)) return false; std::istringstream w(l); std::string e; x.clear(); while (std::getline(w, e, ';')) { char* end = 0; double t = std::strtod(e.c_str(), &end); if (end != e.c_str()) x.push_back(T(t)); } return true; } return false;
}
struct Flags {
   bool mult = false, mx = false;
   bool exact = false;      // reaches the optimum
   bool same = true;        // deterministic
   double tol = 1e-7;       // for the protocol's bounds
   bool lazy = false;       // what is missing may not be needed
   bool last = true;        // the protocol ends with the returned labeling
   std::string prog = "opengm_min_sum";
};
// the options of one run
struct Run { std::string alg; std::vector<Args> opts; void add(const std::string& k) { opts.push_back({ k }); } void add(const std::string& k, const std::string& v) { opts.push_back({ k, v }); } };
inline Args line(Ctx& c, Input& in, const Run& r, const std::string& out, size_t p) {
   std::vector<Args> o = r.opts; o.push_back({ c.flip() ? "-m" : "--model", in.arg(c) }); o.push_back({ c.flip() ? "-a" : "--algorithm", r.alg }); o.push_back({ c.flip() ? "-o" : "--outputfile", out }); if (p != size_t(-1)) o.push_back({ c.flip() ? "-p" : "--protocolate", std::to_string(p) }); if (c.flip(0.1)) o.push_back({ "-v" });
   Args a; for (size_t i : c.perm(o.size())) a.insert(a.end(), o[i].begin(), o[i].end()); return a;
}
template<class GM, class S, class BUILD, class MAKE> void compare(Ctx& c, const Model& m, Input& in, const Run& run, const Flags& f, BUILD build, MAKE make) {
   { auto g = build(); in.save(c, g); } std::string note = f.prog + " " + run.alg; for (auto& a : run.opts) for (auto& s : a) note += " " + s; c.note(note);
   bool h5 = c.flip(0.7); std::string out = in.d.file(h5 ? c.pick({ "r.h5", "r.x.h5" }) : c.pick({ "r.txt", "r" })); in.d.file(out.substr(out.rfind('/') + 1) + "~"); bool old = c.flip(0.2); if (old) tool::spit(out, "precious"); size_t p = c.weighted({ 2, 1, 5, 1 }); p = p == 0 ? size_t(-1) : p - 1; c.labelIf(p && p + 1, "protocol"); c.labelIf(!h5, "text output"); c.labelIf(old, "existing output file");
   // the library
   Vec want; std::vector<double> wv, wb, wi; bool refused = false; std::string why; { Silent quiet; try { GM g; opengm::hdf5::load(g, in.path, in.name); std::unique_ptr<S> s(make(g)); if (p && p + 1) { typename S::TimingVisitorType v(p, 0, false, true, HUGE_VAL, 0.0, 1); if (s->infer(v) == opengm::UNKNOWN) throw opengm::RuntimeError("no solution"); wv = v.getValues(); wb = v.getBounds(); wi = v.getIterations(); } else if (s->infer() == opengm::UNKNOWN) throw opengm::RuntimeError("no solution"); s->arg(want); } catch (const std::exception& e) { refused = true; why = e.what(); } }
   if (refused && why.find("assertion") != std::string::npos) { c.label("asserted"); return; } // not meant for this model
   Args a = line(c, in, run, out, p); c.labelIf(refused, "refused"); tool::Result r = tool::run(in.d, f.prog, a, 20); std::string cmd = f.prog; for (auto& s : a) cmd += " " + s; CHECK(!r.crashed(), cmd << ": " << r.str());
   if (refused && f.lazy && r.ok()) return; if (refused) { CHECK(r.status != 0, cmd << ": reports success where the library reports " << why); return; }
   CHECK(r.ok(), cmd << ": " << r.str()); if (old) CHECK(tool::slurp(out + "~") == "precious", "the existing output file is lost"); CHECK(exists(out), cmd << ": no output file"); Vec x; CHECK(h5 ? readH5(out, "states", x) : readText(out, "states", x), cmd << ": no labeling in the output file"); CHECK_EQ(x.size(), m.n(), cmd << ": size of the labeling");
   for (size_t v = 0; v < x.size(); ++v) CHECK(x[v] < m.labels[v], cmd << ": label " << x[v] << " of variable " << v); if (f.same) CHECK(x == want, cmd << ": labeling " << pbt::vec(x) << ", the library finds " << pbt::vec(want));
   double val = m.value(x, f.mult), opt = bruteMin(m, f.mult, f.mx).value; if (f.exact) CHECK_NEAR(val, opt, 1e-9 * (1 + std::fabs(opt)), cmd << ": not optimal");
   if (p && p + 1) { std::vector<double> t, vs, b, it; auto get = [&](const char* n, std::vector<double>& q) { CHECK(h5 ? readH5(out, n, q) : readText(out, n, q), cmd << ": no " << n << " in the protocol"); }; get("values", vs); get("times", t); get("iteration", it); if (h5) get("bounds", b); CHECK(!vs.empty(), "empty protocol"); if (h5) CHECK_EQ(vs.size(), t.size(), "lengths of the protocol"); CHECK_EQ(vs.size(), it.size(), "lengths of the protocol");
      if (f.same) { auto eq = [&](const std::vector<double>& x, const std::vector<double>& y, const char* n) { CHECK_EQ(x.size(), y.size(), cmd << ": number of " << n); for (size_t i = 0; i < x.size(); ++i) CHECK(x[i] == y[i] || (x[i] != x[i] && y[i] != y[i]) || std::fabs(x[i] - y[i]) <= (h5 ? 1e-9 : 1e-4) * (1 + std::fabs(y[i])), cmd << ": " << n << " " << i << " is " << x[i] << ", the library's " << y[i]); }; eq(vs, wv, "values"); eq(it, wi, "iterations"); if (h5) eq(b, wb, "bounds"); }
      if (f.last) CHECK_NEAR(vs.back(), val, (h5 ? 1e-9 : 1e-4) * (1 + std::fabs(val)), cmd << ": last value of the protocol"); for (double q : b) if (q == q) CHECK(f.mx ? q >= opt - f.tol * (1 + std::fabs(opt)) : q <= opt + f.tol * (1 + std::fabs(opt)), cmd << ": bound " << q << " excludes the optimum " << opt); }
   c.nontrivialIf(m.order() > 1 && m.nConfigs() > 3); c.labelIf(val == opt, "optimal");
}
template<class S, class MAKE> void sum(Ctx& c, const Model& m, Input& in, const Run& run, const Flags& f, MAKE make) { compare<SumGM, S>(c, m, in, run, f, [&] { return buildAll<SumGMs::All>(m); }, make); }
}
