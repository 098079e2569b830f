// Plain-data descriptions of graphical models, random generators for them,
// a reference evaluator, and builders into opengm graphical model types.
#pragma once
#include "pbt.hxx"
#include <map>
#include <opengm/opengm.hxx>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/space/discretespace.hxx>
#include <opengm/graphicalmodel/space/simplediscretespace.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
#include <opengm/operations/integrator.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/constant.hxx>
#include <opengm/functions/potts.hxx>
#include <opengm/functions/pottsn.hxx>
#include <opengm/functions/pottsg.hxx>
#include <opengm/functions/absolute_difference.hxx>
#include <opengm/functions/squared_difference.hxx>
#include <opengm/functions/truncated_absolute_difference.hxx>
#include <opengm/functions/truncated_squared_difference.hxx>
#include <opengm/functions/sparsemarray.hxx>
#include <opengm/datastructures/sparsemarray/sparsemarray.hxx>

namespace gen {
typedef std::vector<size_t> Vec;
typedef std::vector<double> DVec;
enum Kind { EXPL, CONSTANT, POTTS, POTTSN, POTTSG, ABSD, SQD, TABSD, TSQD, SPARSE, NKINDS };
inline const char* kindName(int k) { static const char* n[] = {"explicit","constant","potts","pottsn","pottsg","absdiff","sqdiff","tabsdiff","tsqdiff","sparse"}; return n[k]; }

inline size_t prodOf(const Vec& s) { size_t p = 1; for (size_t x : s) p *= x; return p; }
// first coordinate fastest
inline size_t idxOf(const Vec& shape, const Vec& c) { size_t i = 0, m = 1; for (size_t d = 0; d < shape.size(); ++d) { i += m * c[d]; m *= shape[d]; } return i; }
inline bool nextCoord(const Vec& shape, Vec& c) { for (size_t d = 0; d < shape.size(); ++d) { if (++c[d] < shape[d]) return true; c[d] = 0; } return false; }
// canonical restricted growth string of a label tuple
inline Vec rgs(const Vec& c) { Vec r(c.size()); std::map<size_t,size_t> m; for (size_t i = 0; i < c.size(); ++i) { auto it = m.find(c[i]); if (it == m.end()) it = m.insert(std::make_pair(c[i], m.size())).first; r[i] = it->second; } return r; }
inline const std::vector<Vec>& allRgs(size_t n) {
   static std::map<size_t, std::vector<Vec> > cache;
   auto it = cache.find(n); if (it != cache.end()) return it->second;
   std::vector<Vec> out; Vec cur(n, 0);
   std::function<void(size_t,size_t)> rec = [&](size_t i, size_t mx) { if (i == n) { out.push_back(cur); return; } for (size_t v = 0; v <= mx; ++v) { cur[i] = v; rec(i + 1, std::max(mx, v + 1)); } };
   rec(0, 0);
   return cache[n] = out;
}

struct Func {
   int kind; Vec shape; DVec p; std::vector<size_t> keys;
   double eval(const Vec& c) const {
      switch (kind) {
      case EXPL: return p[idxOf(shape, c)];
      case CONSTANT: return p[0];
      case POTTS: return c[0] == c[1] ? p[0] : p[1];
      case POTTSN: { for (size_t i = 1; i < c.size(); ++i) if (c[i] != c[0]) return p[1]; return p[0]; }
      case POTTSG: { Vec r = rgs(c); const std::vector<Vec>& a = allRgs(c.size()); for (size_t i = 0; i < a.size(); ++i) if (a[i] == r) return p[i]; return 0; }
      case ABSD: return p[0] * std::fabs((double)c[0] - (double)c[1]);
      case SQD: return p[0] * ((double)c[0] - (double)c[1]) * ((double)c[0] - (double)c[1]);
      case TABSD: { double d = std::fabs((double)c[0] - (double)c[1]); return p[1] * std::min(d, p[0]); }
      case TSQD: { double d = ((double)c[0] - (double)c[1]); d *= d; return p[1] * std::min(d, p[0]); }
      case SPARSE: { size_t k = idxOf(shape, c); for (size_t i = 0; i < keys.size(); ++i) if (keys[i] == k) return p[1 + i]; return p[0]; }
      }
      return 0;
   }
   std::string str() const { return std::string(kindName(kind)) + " shape=" + pbt::vec(shape) + " p=" + pbt::vec(p) + (kind == SPARSE ? " keys=" + pbt::vec(keys) : ""); }
};
struct Factor { size_t f; Vec vars; };
struct Model {
   Vec labels; std::vector<Func> funcs; std::vector<Factor> factors;
   size_t n() const { return labels.size(); }
   double factorValue(size_t i, const Vec& x) const { const Factor& fa = factors[i]; Vec c(fa.vars.size()); for (size_t k = 0; k < c.size(); ++k) c[k] = x[fa.vars[k]]; return funcs[fa.f].eval(c); }
   double sum(const Vec& x) const { double s = 0; for (size_t i = 0; i < factors.size(); ++i) s += factorValue(i, x); return s; }
   double product(const Vec& x) const { double s = 1; for (size_t i = 0; i < factors.size(); ++i) s *= factorValue(i, x); return s; }
   double value(const Vec& x, bool mult) const { return mult ? product(x) : sum(x); }
   size_t order() const { size_t o = 0; for (auto& f : factors) o = std::max(o, f.vars.size()); return o; }
   size_t nConfigs() const { return prodOf(labels); }
   std::string str() const {
      std::ostringstream o; o.precision(17); o << "labels=" << pbt::vec(labels) << "\n";
      for (size_t i = 0; i < funcs.size(); ++i) o << " f" << i << ": " << funcs[i].str() << "\n";
      for (size_t i = 0; i < factors.size(); ++i) o << " factor" << i << ": f" << factors[i].f << " vars=" << pbt::vec(factors[i].vars) << "\n";
      return o.str();
   }
};

// all labelings
template<class F> inline void forAll(const Vec& labels, F f) { Vec x(labels.size(), 0); do { f(x); } while (nextCoord(labels, x)); }

struct Opt {
   long minVars = 1, maxVars = 5, minLabels = 1, maxLabels = 4, maxOrder = 3, maxFactors = 8, minFactors = 0;
   bool positive = false;      // values from {1/4,1/2,1,2,4} (products stay exact)
   bool zeroValue = false;     // with positive: also 0
   long amp = 9;               // integer amplitude
   bool order0 = true, unaryAll = false;
   bool binary = false;        // all label counts = 2
   bool uniformLabels = false;
   bool dupScopes = true;
   bool tree = false;          // factor graph acyclic
   bool submodular = false;    // pairwise binary submodular
   bool dyadic = false;        // multiples of 1/4
   int infinite = 0;           // sign of infinite values in explicit and sparse functions (0: none)
   double shareProb = 0.2;
   long maxConfigs = 2000;
   std::vector<int> kinds = {EXPL, CONSTANT, POTTS, POTTSN, POTTSG, ABSD, SQD, TABSD, TSQD, SPARSE};
};

inline double genValue(pbt::Ctx& c, const Opt& o) {
   if (o.positive) {
      if (o.zeroValue && c.flip(0.15)) return 0;
      static const double v[] = {1, 2, 0.5, 4, 0.25}; return v[c.upTo(4)];
   }
   double v = (double)c.sym(o.amp);
   if (o.dyadic) v /= 4;
   return v;
}
inline Func genFunc(pbt::Ctx& c, const Opt& o, const Vec& shape) {
   Func f; f.shape = shape;
   std::vector<int> ok;
   for (int k : o.kinds) {
      bool pair = (k == POTTS || k == ABSD || k == SQD || k == TABSD || k == TSQD);
      if (pair && shape.size() != 2) continue;
      if (o.positive && (k == ABSD || k == SQD || k == TABSD || k == TSQD) && !o.zeroValue) continue;
      if ((k == POTTSN || k == POTTSG || k == SPARSE) && shape.size() < 1) continue;
      if (k == POTTSG && shape.size() > 6) continue;
      ok.push_back(k);
   }
   if (ok.empty()) ok.push_back(EXPL);
   f.kind = ok[c.upTo(ok.size() - 1)];
   size_t sz = prodOf(shape);
   auto val = [&] { return genValue(c, o); };
   switch (f.kind) {
   case EXPL: for (size_t i = 0; i < sz; ++i) f.p.push_back(val()); break;
   case CONSTANT: f.p.push_back(val()); break;
   case POTTS: case POTTSN: f.p.push_back(val()); f.p.push_back(val()); break;
   case POTTSG: for (size_t i = 0; i < allRgs(shape.size()).size(); ++i) f.p.push_back(val()); break;
   case ABSD: case SQD: f.p.push_back(val()); break;
   case TABSD: case TSQD: f.p.push_back((double)c.small(0, 5)); f.p.push_back(val()); break;
   case SPARSE: { f.p.push_back(val()); for (size_t k = 0; k < sz && k < 12; ++k) if (c.flip(0.4)) { f.keys.push_back(k); f.p.push_back(val()); } break; }
   }
   if (o.infinite && (f.kind == EXPL || f.kind == SPARSE)) for (double& v : f.p) if (c.flip(0.15)) v = o.infinite * std::numeric_limits<double>::infinity();
   return f;
}
inline Vec shapeOf(const Model& m, const Vec& vars) { Vec s; for (size_t v : vars) s.push_back(m.labels[v]); return s; }

inline void genLabels(pbt::Ctx& c, const Opt& o, Model& m) {
   long n = c.range(o.minVars, o.maxVars);
   size_t tot = 1; long ul = c.small(o.minLabels, o.maxLabels);
   for (long i = 0; i < n; ++i) {
      long hi = o.maxLabels; while (hi > 1 && tot * hi > (size_t)o.maxConfigs) --hi;
      long l = o.binary ? 2 : o.uniformLabels ? ul : c.range(std::min(o.minLabels, hi), hi);
      if (l > hi && tot * l > (size_t)o.maxConfigs) { if (i >= o.minVars) break; }
      m.labels.push_back(l); tot *= l;
   }
}
inline Model genModel(pbt::Ctx& c, const Opt& o) {
   Model m; genLabels(c, o, m);
   size_t n = m.labels.size();
   auto addFactor = [&](const Vec& vars) {
      Vec shape = shapeOf(m, vars);
      std::vector<size_t> cand; for (size_t i = 0; i < m.funcs.size(); ++i) if (m.funcs[i].shape == shape) cand.push_back(i);
      Factor fa; fa.vars = vars;
      if (!cand.empty() && c.flip(o.shareProb)) fa.f = cand[c.upTo(cand.size() - 1)];
      else { m.funcs.push_back(genFunc(c, o, shape)); fa.f = m.funcs.size() - 1; }
      m.factors.push_back(fa);
   };
   if (o.unaryAll) for (size_t v = 0; v < n; ++v) addFactor(Vec(1, v));
   if (o.tree) {
      // acyclic factor graph: merge components
      std::vector<size_t> comp(n); for (size_t i = 0; i < n; ++i) comp[i] = i;
      long k = c.range(o.minFactors, o.maxFactors);
      for (long i = 0; i < k; ++i) {
         long ord = c.range(o.order0 ? 0 : 1, std::min<long>(o.maxOrder, n));
         Vec vars; std::set<size_t> used;
         Vec p = c.perm(n);
         for (size_t v : p) { if ((long)vars.size() == ord) break; if (used.insert(comp[v]).second) vars.push_back(v); }
         std::sort(vars.begin(), vars.end());
         if (vars.size() > 1) { size_t t = comp[vars[0]]; for (size_t v : vars) { size_t o2 = comp[v]; for (auto& x : comp) if (x == o2) x = t; } }
         addFactor(vars);
      }
      return m;
   }
   long k = c.range(o.minFactors, o.maxFactors);
   for (long i = 0; i < k; ++i) {
      long ord = c.range(o.order0 ? 0 : 1, std::min<long>(o.maxOrder, n));
      Vec vars = c.subset(n, ord);
      if (!o.dupScopes) { bool dup = false; for (auto& f : m.factors) if (f.vars == vars) dup = true; if (dup) continue; }
      addFactor(vars);
   }
   return m;
}

// ---------------------------------------------------------------- builders
template<class T, class I = size_t, class L = size_t> struct Types {
   typedef opengm::ExplicitFunction<T, I, L> Explicit;
   typedef opengm::ConstantFunction<T, I, L> Constant;
   typedef opengm::PottsFunction<T, I, L> Potts;
   typedef opengm::PottsNFunction<T, I, L> PottsN;
   typedef opengm::PottsGFunction<T, I, L> PottsG;
   typedef opengm::AbsoluteDifferenceFunction<T, I, L> AbsD;
   typedef opengm::SquaredDifferenceFunction<T, I, L> SqD;
   typedef opengm::TruncatedAbsoluteDifferenceFunction<T, I, L> TAbsD;
   typedef opengm::TruncatedSquaredDifferenceFunction<T, I, L> TSqD;
   typedef opengm::SparseFunction<T, I, L> Sparse;
   typedef typename opengm::meta::TypeListGenerator<Explicit, Constant, Potts, PottsN, PottsG, AbsD, SqD, TAbsD, TSqD, Sparse>::type All;
   typedef typename opengm::meta::TypeListGenerator<Sparse, PottsG, Explicit, Potts, TSqD, TAbsD, Constant, SqD, AbsD, PottsN>::type AllPermuted;
   typedef typename opengm::meta::TypeListGenerator<Explicit>::type Only;
};
template<class T, class OP, class I = size_t, class L = size_t> struct GMs {
   typedef opengm::DiscreteSpace<I, L> Space;
   typedef opengm::GraphicalModel<T, OP, typename Types<T, I, L>::All, Space> All;
   typedef opengm::GraphicalModel<T, OP, typename Types<T, I, L>::AllPermuted, Space> Permuted;
   typedef opengm::GraphicalModel<T, OP, typename Types<T, I, L>::Only, Space> Expl;
};
typedef GMs<double, opengm::Adder> SumGMs;
typedef GMs<double, opengm::Multiplier> MulGMs;

template<class T, class I, class L> opengm::ExplicitFunction<T, I, L> makeExplicit(const Func& f) {
   if (f.shape.empty()) return opengm::ExplicitFunction<T, I, L>(T(f.eval(Vec())));
   opengm::ExplicitFunction<T, I, L> e(f.shape.begin(), f.shape.end());
   Vec c(f.shape.size(), 0);
   do { e(c.begin()) = T(f.eval(c)); } while (nextCoord(f.shape, c));
   return e;
}
template<class T, class I, class L> opengm::PottsGFunction<T, I, L> makePottsG(const Func& f) {
   opengm::PottsGFunction<T, I, L> g(f.shape.begin(), f.shape.end());
   const std::vector<Vec>& a = allRgs(f.shape.size());
   for (size_t i = 0; i < a.size(); ++i) g.setByLabel(a[i].begin(), T(f.p[i]));
   return g;
}
template<class T, class I, class L> opengm::SparseFunction<T, I, L> makeSparse(const Func& f) {
   opengm::SparseFunction<T, I, L> s(f.shape.begin(), f.shape.end(), T(f.p[0]));
   Vec c(f.shape.size(), 0);
   do { size_t k = idxOf(f.shape, c); for (size_t i = 0; i < f.keys.size(); ++i) if (f.keys[i] == k) s.insert(c.begin(), T(f.p[1 + i])); } while (nextCoord(f.shape, c));
   return s;
}
// visit the opengm function object of a description
template<class T, class I, class L, class F> auto visit(const Func& f, F&& cb) {
   typedef Types<T, I, L> Ty;
   switch (f.kind) {
   case CONSTANT: return cb(typename Ty::Constant(f.shape.begin(), f.shape.end(), T(f.p[0])));
   case POTTS: return cb(typename Ty::Potts(f.shape[0], f.shape[1], T(f.p[0]), T(f.p[1])));
   case POTTSN: return cb(typename Ty::PottsN(f.shape.begin(), f.shape.end(), T(f.p[0]), T(f.p[1])));
   case POTTSG: return cb(makePottsG<T, I, L>(f));
   case ABSD: return cb(typename Ty::AbsD(f.shape[0], f.shape[1], T(f.p[0])));
   case SQD: return cb(typename Ty::SqD(f.shape[0], f.shape[1], T(f.p[0])));
   case TABSD: return cb(typename Ty::TAbsD(f.shape[0], f.shape[1], T(f.p[0]), T(f.p[1])));
   case TSQD: return cb(typename Ty::TSqD(f.shape[0], f.shape[1], T(f.p[0]), T(f.p[1])));
   case SPARSE: return cb(makeSparse<T, I, L>(f));
   default: return cb(makeExplicit<T, I, L>(f));
   }
}
template<class GM> struct AddAll {
   template<class T = typename GM::ValueType> static typename GM::FunctionIdentifier add(GM& gm, const Func& f, bool shared = false) {
      typedef typename GM::IndexType I; typedef typename GM::LabelType L;
      return visit<T, I, L>(f, [&](const auto& fn) { return shared ? gm.addSharedFunction(fn) : gm.addFunction(fn); });
   }
};
template<class GM> void fillAll(GM& gm, const Model& m) {
   std::vector<typename GM::FunctionIdentifier> ids;
   for (auto& f : m.funcs) ids.push_back(AddAll<GM>::add(gm, f));
   for (auto& fa : m.factors) gm.addFactor(ids[fa.f], fa.vars.begin(), fa.vars.end());
}
template<class GM> void fillExplicit(GM& gm, const Model& m) {
   std::vector<typename GM::FunctionIdentifier> ids;
   for (auto& f : m.funcs) ids.push_back(gm.addFunction(makeExplicit<typename GM::ValueType, typename GM::IndexType, typename GM::LabelType>(f)));
   for (auto& fa : m.factors) gm.addFactor(ids[fa.f], fa.vars.begin(), fa.vars.end());
}
template<class GM> GM buildAll(const Model& m) { GM gm(typename GM::SpaceType(m.labels.begin(), m.labels.end())); fillAll(gm, m); return gm; }
template<class GM> GM buildExplicit(const Model& m) { GM gm(typename GM::SpaceType(m.labels.begin(), m.labels.end())); fillExplicit(gm, m); return gm; }

// ---------------------------------------------------------------- references
struct Best { double value; std::vector<Vec> args; };
inline Best bruteMin(const Model& m, bool mult = false, bool maximize = false) {
   Best b; b.value = maximize ? -1e300 : 1e300; bool first = true;
   forAll(m.labels, [&](const Vec& x) { double v = m.value(x, mult); if (first || (maximize ? v > b.value : v < b.value)) { b.value = v; b.args.clear(); first = false; } if (v == b.value) b.args.push_back(x); });
   return b;
}
} // namespace gen
