#include "gen_model.hxx"
#include <deque>
#include <cstdint>
using namespace gen;

// same as gen::visit, but the shape is handed over through iterators of type S
template<class T, class I, class L, class S, class F> static void visitS(const Func& f, F&& cb) {
   typedef Types<T, I, L> Ty;
   std::vector<S> s(f.shape.begin(), f.shape.end());
   switch (f.kind) {
   case CONSTANT: cb(typename Ty::Constant(s.begin(), s.end(), T(f.p[0]))); return;
   case POTTSN: cb(typename Ty::PottsN(s.begin(), s.end(), T(f.p[0]), T(f.p[1]))); return;
   case POTTSG: {
      typename Ty::PottsG g(s.begin(), s.end()); const std::vector<Vec>& a = allRgs(f.shape.size());
      for (size_t i = 0; i < a.size(); ++i) { std::vector<S> l(a[i].begin(), a[i].end()); g.setByLabel(l.begin(), T(f.p[i])); }
      cb(g); return; }
   case SPARSE: {
      typename Ty::Sparse g(s.begin(), s.end(), T(f.p[0]));
      for (size_t i = 0; i < f.keys.size(); ++i) { std::vector<S> l; size_t k = f.keys[i]; for (size_t d = 0; d < f.shape.size(); ++d) { l.push_back((S)(k % f.shape[d])); k /= f.shape[d]; } g.insert(l.begin(), T(f.p[1 + i])); }
      cb(g); return; }
   case EXPL: {
      if (s.empty()) { cb(typename Ty::Explicit(T(f.p[0]))); return; }
      typename Ty::Explicit g(s.begin(), s.end(), T(0));
      for (size_t k = 0; k < f.p.size(); ++k) { std::vector<S> l; size_t q = k; for (size_t d = 0; d < f.shape.size(); ++d) { l.push_back((S)(q % f.shape[d])); q /= f.shape[d]; } g(l.begin()) = T(f.p[k]); }
      cb(g); return; }
   default: visit<T, I, L>(f, cb);
   }
}

template<class FN, class T, class L> static void checkFn(pbt::Ctx& c, const FN& fn, const Func& f, const std::vector<Vec>& tuples, const char* what) {
   CHECK_EQ((size_t)fn.dimension(), f.shape.size(), what);
   CHECK_EQ((size_t)fn.size(), prodOf(f.shape), what << " size");
   for (size_t d = 0; d < f.shape.size(); ++d) CHECK_EQ((size_t)fn.shape(d), f.shape[d], what << " shape " << d);
   std::vector<size_t> sh(fn.functionShapeBegin(), fn.functionShapeEnd());
   CHECK(sh == f.shape, what << " functionShape " << pbt::vec(sh));
   for (const Vec& x : tuples) {
      T ref = T(f.eval(x));
      std::vector<L> l(x.begin(), x.end()); l.push_back(0);
      CHECK_EQ((double)fn(l.begin()), (double)ref, what << " at " << pbt::vec(x));
      std::vector<size_t> l2(x.begin(), x.end()); l2.push_back(0);
      CHECK_EQ((double)fn(l2.begin()), (double)ref, what << " size_t labels at " << pbt::vec(x));
      const size_t* ptr = &l2[0];
      CHECK_EQ((double)fn(ptr), (double)ref, what << " pointer labels at " << pbt::vec(x));
      std::deque<unsigned> l3(l2.begin(), l2.end());
      CHECK_EQ((double)fn(l3.begin()), (double)ref, what << " deque labels at " << pbt::vec(x));
   }
}
static std::vector<Vec> tuplesOf(pbt::Ctx& c, const Vec& shape) {
   std::vector<Vec> out;
   if (prodOf(shape) <= 64) { forAll(shape, [&](const Vec& x) { out.push_back(x); }); return out; }
   for (int k = 0; k < 20; ++k) { Vec x; bool eq = c.flip(0.3); size_t v = c.upTo(255); for (size_t s : shape) { x.push_back(eq ? v % s : c.flip(0.3) ? s - 1 : c.upTo(s - 1)); } out.push_back(x); }
   return out;
}
static Func genFn(pbt::Ctx& c, bool integral, long maxExtent, int kind, bool smallTable = false) {
   Opt o; o.dyadic = !integral; o.amp = 19; o.kinds = {kind};
   bool pair = kind == POTTS || kind == ABSD || kind == SQD || kind == TABSD || kind == TSQD;
   long dim = pair ? 2 : c.range(kind == EXPL || kind == CONSTANT ? 0 : 1, kind == POTTSG ? 7 : 5);
   bool deep = !pair && kind != POTTSG && !smallTable && c.flip(0.2); if (deep) dim = c.range(6, kind == EXPL ? 9 : 20);
   bool big = !smallTable && !deep && maxExtent > 6 && c.flip(0.35);
   size_t budget = kind == EXPL ? 2000 : big || deep ? 1u << 20 : 400;
   Vec shape; size_t tot = 1;
   for (long d = 0; d < dim; ++d) {
      long hi = big ? maxExtent : deep ? 3 : 5; if ((size_t)hi > budget / tot) hi = budget / tot; if (hi < 1) hi = 1;
      long e = big ? c.large(1, hi) : c.range(1, hi); shape.push_back(e); tot *= e;
   }
   Func f;
   if (kind == POTTSG && dim > 6) { f.kind = POTTSG; f.shape = shape; for (size_t i = 0; i < allRgs(dim).size(); ++i) f.p.push_back((double)((long)(i % 97) - 40)); }
   else f = genFunc(c, o, shape);
   if (kind == SPARSE && (big || deep)) { f.keys.clear(); f.p.resize(1); std::set<size_t> ks; for (int k = 0; k < 8; ++k) ks.insert(c.upTo(tot - 1)); for (size_t k : ks) { f.keys.push_back(k); f.p.push_back(c.sym(19)); } }
   c.labelIf(big, "large-extent"); c.labelIf(deep, "many variables"); c.label(std::string("kind:") + kindName(kind)); c.label("dim:" + pbt::str(dim));
   return f;
}
template<class T, class I, class L, class S> static void one(pbt::Ctx& c, long maxExtent) {
   bool integral = std::is_integral<T>::value;
   int kind = (int)c.upTo(NKINDS - 1);
   Func f = genFn(c, integral, maxExtent, kind), g = genFn(c, integral, maxExtent, kind, true);
   c.note(f.str()).note("other: " + g.str());
   std::vector<Vec> tf = tuplesOf(c, f.shape), tg = tuplesOf(c, g.shape);
   bool nz = false; for (double v : f.p) if (v != 0) nz = true;
   c.nontrivialIf(nz && tf.size() > 1);
   visitS<T, I, L, S>(f, [&](const auto& fn) {
      typedef std::decay_t<decltype(fn)> FN;
      checkFn<FN, T, L>(c, fn, f, tf, "constructed");
      FN copy(fn); checkFn<FN, T, L>(c, copy, f, tf, "copy");
      visitS<T, I, L, S>(g, [&](const auto& gn0) {
         // the same type, known only at run time by kind
         if constexpr (std::is_same<std::decay_t<decltype(gn0)>, FN>::value) {
            FN gn(gn0);
            checkFn<FN, T, L>(c, gn, g, tg, "other");
            gn = fn; checkFn<FN, T, L>(c, gn, f, tf, "assigned over other");
            copy = gn0; checkFn<FN, T, L>(c, copy, g, tg, "copy re-assigned");
            checkFn<FN, T, L>(c, fn, f, tf, "original after its copy changed");
            FN* self = &gn; gn = *self; checkFn<FN, T, L>(c, gn, f, tf, "self-assigned");
            FN def; def = fn; checkFn<FN, T, L>(c, def, f, tf, "default constructed then assigned");
            std::vector<FN> v; v.push_back(fn); v.push_back(gn0); v.push_back(fn); v.erase(v.begin());
            checkFn<FN, T, L>(c, v[0], g, tg, "in vector"); checkFn<FN, T, L>(c, v[1], f, tf, "in vector");
            std::swap(v[0], v[1]); checkFn<FN, T, L>(c, v[1], g, tg, "swapped"); checkFn<FN, T, L>(c, v[0], f, tf, "swapped");
         }
      });
   });
}
PROP(double_size_t, 20000, 300000) { one<double, size_t, size_t, size_t>(c, 300); }
PROP(float_narrow, 15000, 300000) { one<float, unsigned, unsigned short, unsigned short>(c, 300); }
PROP(double_uint8, 20000, 300000) { one<double, unsigned, unsigned char, unsigned char>(c, 255); }
PROP(int_values, 15000, 300000) { one<int, size_t, unsigned, int>(c, 200); }

// tables of generalised Potts functions in their documented order (ascending pair-equality bit mask)
PROP(pottsg_tables, 4000, 40000) {
   size_t dim = c.range(1, 7); const std::vector<Vec>& a = allRgs(dim);
   std::vector<std::pair<size_t, size_t> > masks; // (mask, index in a)
   for (size_t k = 0; k < a.size(); ++k) { size_t m = 0, bit = 1; for (size_t i = 1; i < dim; ++i) for (size_t j = 0; j < i; ++j) { if (a[k][i] == a[k][j]) m += bit; bit *= 2; } masks.push_back(std::make_pair(m, k)); }
   std::sort(masks.begin(), masks.end());
   Vec shape; for (size_t d = 0; d < dim; ++d) shape.push_back(c.range(1, 4));
   DVec vals; for (size_t i = 0; i < a.size(); ++i) vals.push_back(i < 60 ? (double)c.sym(50) : (double)i);
   c.note(pbt::vec(shape)).note(pbt::vec(vals));
   typedef opengm::PottsGFunction<double> F;
   F f1(shape.begin(), shape.end(), vals.begin()), f2(shape.begin(), shape.end());
   for (size_t i = 0; i < masks.size(); ++i) f2.setByPartition(masks[i].first, vals[i]);
   std::map<Vec, double> ref; for (size_t i = 0; i < masks.size(); ++i) ref[a[masks[i].second]] = vals[i];
   c.nontrivialIf(dim > 1); c.label("dim:" + pbt::str(dim));
   int n = 0;
   forAll(shape, [&](const Vec& x) {
      if (++n > 300) return;
      CHECK_EQ(f1(x.begin()), ref[rgs(x)], "values constructor at " << pbt::vec(x));
      CHECK_EQ(f2(x.begin()), ref[rgs(x)], "setByPartition at " << pbt::vec(x));
   });
}
