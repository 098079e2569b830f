#include "pbt.hxx"
#include <opengm/opengm.hxx>
#include <opengm/datastructures/marray/marray.hxx>
#include <opengm/datastructures/marray/marray_hdf5.hxx>
#include <unistd.h>
#include <map>
#include <functional>
typedef std::vector<size_t> Vec;
namespace mh = marray::hdf5;
struct TempFile { std::string path; TempFile() { const char* d = getenv("PBT_SCRATCH"); path = std::string(d ? d : "/tmp") + "/s02-" + std::to_string(getpid()) + ".h5"; ::unlink(path.c_str()); } ~TempFile() { ::unlink(path.c_str()); } };
inline size_t prodOf(const Vec& s) { size_t p = 1; for (size_t x : s) p *= x; return p; }
inline size_t at(const Vec& s, const Vec& x) { size_t i = 0, m = 1; for (size_t d = 0; d < s.size(); ++d) { i += m * x[d]; m *= s[d]; } return i; }
template<class F> void forAll(const Vec& s, F f) { Vec x(s.size(), 0); for (;;) { f(x); size_t d = 0; for (; d < s.size(); ++d) { if (++x[d] < s[d]) break; x[d] = 0; } if (d == s.size()) return; } }
template<class T> T value(pbt::Ctx& c) {
   if (c.flip(0.1)) return std::numeric_limits<T>::max(); if (c.flip(0.1)) return std::numeric_limits<T>::lowest();
   if (!std::numeric_limits<T>::is_integer) { if (c.flip(0.05)) return std::numeric_limits<T>::infinity(); return (T)(c.sym(1000) / 7.0); }
   return (T)(std::numeric_limits<T>::is_signed ? c.sym(100) : c.upTo(200));
}
template<class T> struct Data { Vec shape; bool last; std::vector<T> v; };
template<class T> struct Run {
   pbt::Ctx& c; TempFile f; std::map<std::string, std::map<std::string, Data<T> > > model; bool multi, block;
   Run(pbt::Ctx& c_) : c(c_), multi(false), block(false) {}
   Vec shape() { Vec s; size_t d = c.range(1, 4); for (size_t i = 0; i < d; ++i) s.push_back(c.range(1, d > 2 ? 4 : 7)); return s; }
   marray::Marray<T> make(const Vec& s, bool last, std::vector<T>& v) {
      marray::Marray<T> a(s.begin(), s.end(), T(), last ? marray::LastMajorOrder : marray::FirstMajorOrder); v.resize(prodOf(s)); forAll(s, [&](const Vec& x) { v[at(s, x)] = value<T>(c); a(x.begin()) = v[at(s, x)]; }); return a;
   }
   void same(const marray::View<T>& a, const Vec& s, const std::function<T(const Vec&)>& ref, const std::string& w) {
      CHECK_EQ((size_t)a.dimension(), s.size(), w << ": dimension"); for (size_t d = 0; d < s.size(); ++d) CHECK_EQ((size_t)a.shape(d), s[d], w << ": shape");
      forAll(s, [&](const Vec& x) { CHECK(a(x.begin()) == ref(x), w << ": element " << pbt::vec(x) << " is " << +a(x.begin()) << " instead of " << +ref(x)); });
   }
   void compare(hid_t g, const std::string& n, const Data<T>& d) {
      auto ref = [&](const Vec& x) { return d.v[at(d.shape, x)]; }; marray::Marray<T> a; if (c.flip(0.3)) { size_t s[] = { 2, 3 }; a = marray::Marray<T>(s, s + 2, T(1)); }
      mh::load(g, n, a); same(a, d.shape, ref, "loaded " + n); CHECK(a.coordinateOrder() == (d.last ? marray::LastMajorOrder : marray::FirstMajorOrder), "storage order of " << n);
   }
   void slab(hid_t g, const std::string& n, Data<T>& d, bool write) {
      Vec b, s; bool bad = false, full = true; for (size_t k = 0; k < d.shape.size(); ++k) { size_t lo = c.upTo(d.shape[k] - 1), len = c.range(1, d.shape[k] - lo); if (c.flip(0.02)) { len = d.shape[k] - lo + c.range(1, 2); bad = true; } b.push_back(lo); s.push_back(len); full = full && len == d.shape[k]; }
      std::string w = (write ? "block written to " : "block of ") + n + " at " + pbt::vec(b) + " of size " + pbt::vec(s); c.note(w); if (!full) block = true;
      bool thrown = false; typedef std::vector<unsigned> U; U bu(b.begin(), b.end()), su(s.begin(), s.end());
      if (write) {
         bool otherOrder = c.flip(0.05); std::vector<T> v; marray::Marray<T> a = make(s, d.last != otherOrder, v);
         try { mh::saveHyperslab(g, n, bu.begin(), bu.end(), su.begin(), a); } catch (std::runtime_error& e) { thrown = true; }
         CHECK_EQ(thrown, bad || otherOrder, w << ": rejected"); if (!thrown) forAll(s, [&](const Vec& x) { Vec y(x); for (size_t k = 0; k < y.size(); ++k) y[k] += b[k]; d.v[at(d.shape, y)] = v[at(s, x)]; });
         if (thrown) c.label("rejected"); if (c.flip(0.3)) compare(g, n, d);
      } else {
         marray::Marray<T> a; try { mh::loadHyperslab(g, n, bu.begin(), bu.end(), su.begin(), a); } catch (std::runtime_error& e) { thrown = true; }
         CHECK_EQ(thrown, bad, w << ": rejected"); if (thrown) { c.label("rejected"); return; }
         // the documented shape of the result is the shape of the block
         Vec rs; for (size_t k = 0; k < s.size(); ++k) rs.push_back(s[k]); same(a, rs, [&](const Vec& x) { Vec y(x); for (size_t k = 0; k < y.size(); ++k) y[k] += b[k]; return d.v[at(d.shape, y)]; }, w);
      }
   }
   void step(hid_t file, bool readOnly) {
      std::vector<std::string> groups; for (auto& g : model) groups.push_back(g.first); 
      if (groups.empty() || (!readOnly && groups.size() < 3 && c.flip(0.1))) { if (readOnly) return; std::string g = pbt::str("g", groups.size()); hid_t h = mh::createGroup(file, g); mh::closeGroup(h); model[g]; c.note("group " + g); return; }
      std::string gn = groups[c.upTo(groups.size() - 1)]; hid_t g = mh::openGroup(file, gn); auto& m = model[gn]; std::vector<std::string> names; for (auto& n : m) names.push_back(n.first);
      std::string n = c.pick({ "a", "b", "array", "values" });
      switch (readOnly ? 4 + c.upTo(3) : c.upTo(7)) {
      case 0: case 1: {   // save
         bool taken = m.count(n) != 0, thrown = false; Data<T> d; d.last = c.flip(); d.shape = shape(); int how = (int)c.upTo(3); c.note(pbt::str("save ", gn, "/", n, " ", pbt::vec(d.shape), d.last ? " last" : " first", " how ", how));
         try {
            if (how == 0 || how == 1) { auto a = make(d.shape, d.last, d.v); mh::save(g, n, a); }
            else if (how == 2) { d.shape.resize(1); d.last = false; std::vector<T> v; for (size_t i = 0; i < d.shape[0]; ++i) v.push_back(value<T>(c)); d.v = v; marray::Vector<T> probe(2); d.last = probe.coordinateOrder() == marray::LastMajorOrder; mh::save(g, n, v); }
            else { Vec big, b; for (size_t x : d.shape) { size_t lo = c.upTo(2); b.push_back(lo); big.push_back(x + lo + c.upTo(2)); } std::vector<T> v; auto a = make(big, d.last, v); auto view = a.view(b.begin(), d.shape.begin()); d.v.resize(prodOf(d.shape)); forAll(d.shape, [&](const Vec& x) { Vec y(x); for (size_t k = 0; k < y.size(); ++k) y[k] += b[k]; d.v[at(d.shape, x)] = v[at(big, y)]; }); if (c.flip(0.4) && d.shape.size() > 1) { view.transpose(); Data<T> t(d); std::reverse(t.shape.begin(), t.shape.end()); forAll(d.shape, [&](const Vec& x) { Vec y(x.rbegin(), x.rend()); t.v[at(t.shape, y)] = d.v[at(d.shape, x)]; }); d = t; } marray::Marray<T> cp = view; d.last = cp.coordinateOrder() == marray::LastMajorOrder; mh::save(g, n, view); c.label("view"); }
         } catch (std::runtime_error& e) { thrown = true; }
         CHECK_EQ(thrown, taken, "saving under " << (taken ? "a taken" : "a free") << " name was rejected"); if (!thrown) { m[n] = d; multi = multi || d.shape.size() > 1; } else { c.label("name taken"); compare(g, n, m[n]); } break; }
      case 2: { if (m.count(n)) break; Data<T> d; d.last = c.flip(); d.shape = shape(); c.note(pbt::str("create ", gn, "/", n, " ", pbt::vec(d.shape), d.last ? " last" : " first")); mh::create<T>(g, n, d.shape.begin(), d.shape.end(), d.last ? marray::LastMajorOrder : marray::FirstMajorOrder); d.v.assign(prodOf(d.shape), T(0)); m[n] = d; multi = multi || d.shape.size() > 1; c.label("create"); break; }
      case 3: if (names.empty()) break; n = names[c.upTo(names.size() - 1)]; slab(g, n, m[n], true); break;
      case 4: if (names.empty()) break; n = names[c.upTo(names.size() - 1)]; slab(g, n, m[n], false); break;
      case 5: if (names.empty()) break; n = names[c.upTo(names.size() - 1)]; compare(g, n, m[n]); break;
      case 6: { if (names.empty()) break; n = names[c.upTo(names.size() - 1)]; marray::Vector<size_t> s; mh::loadShape(g, n, s); CHECK_EQ((size_t)s.size(), m[n].shape.size(), "dimension in loadShape"); for (size_t k = 0; k < s.size(); ++k) CHECK_EQ((size_t)s[k], m[n].shape[k], "loadShape"); if (s.size() == 1) { std::vector<T> v(3, T(1)); mh::loadVec(g, n, v); CHECK(v == m[n].v, "loadVec of " << n); c.label("loadVec"); } break; }
      default: { bool known = m.count(n) != 0; if (known) { typedef typename std::conditional<std::is_same<T, float>::value, double, float>::type O; marray::Marray<O> o; bool thrown = false; try { mh::load(g, n, o); } catch (std::runtime_error& e) { thrown = true; } CHECK(thrown, "loading " << n << " as another element type was not rejected"); } else { bool thrown = false; marray::Marray<T> o; try { mh::load(g, n, o); } catch (std::runtime_error& e) { thrown = true; } CHECK(thrown, "loading " << n << " that does not exist was not rejected"); } } }
      mh::closeGroup(g);
   }
   void run() {
      H5Eset_auto(H5E_DEFAULT, 0, 0); mh::HDF5Version ver = c.flip(0.3) ? mh::LATEST_HDF5_VERSION : mh::DEFAULT_HDF5_VERSION; hid_t file = mh::createFile(f.path, ver); bool ro = false; size_t n = c.range(2, 14);
      for (size_t i = 0; i < n; ++i) { if (c.flip(0.15)) { mh::closeFile(file); ro = c.flip(0.4); c.note(ro ? "reopen read-only" : "reopen"); file = mh::openFile(f.path, ro ? mh::READ_ONLY : mh::READ_WRITE, ver); } step(file, ro); }
      mh::closeFile(file); file = mh::openFile(f.path); for (auto& g : model) { hid_t h = mh::openGroup(file, g.first); for (auto& d : g.second) compare(h, d.first, d.second); mh::closeGroup(h); } mh::closeFile(file); c.nontrivialIf(multi && block);
   }
};
