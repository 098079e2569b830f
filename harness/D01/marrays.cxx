// FLAGS: -DHAVE_CPP0X_INITIALIZER_LISTS -DHAVE_CPP0X_VARIADIC_TEMPLATES
#include "mview.h"
#include <memory>
using namespace d01;
namespace {
// model of an owning array: shape, order, values by coordinate (first coordinate fastest)
struct MA { bool init = false; Vec shape; CoordinateOrder order = marray::defaultOrder; std::vector<int> val;
   MV mv() const { CoordinateOrder o = order; Vec s = shape; return MV::make(s, o, [&](const Vec& x) { return o == LastMajorOrder ? lastMajor(x, s) : firstMajor(x, s); }); }
   void set(const Vec& s, CoordinateOrder o, std::function<int(const Vec&)> f) { std::vector<int> v(prod(s)); Vec x(s.size(), 0); size_t i = 0; do { v[i++] = f(x); } while (nextC(x, s)); shape = s; order = o; val = v; init = true; }
   int at(const Vec& x) const { return val[lastMajor(x, shape)]; } };
void check(pbt::Ctx& c, const marray::Marray<int>& a, MA& m, const char* what) {
   CHECK_EQ(a.size(), m.init ? m.val.size() : (size_t)0, what << ": size"); if (!m.init) return;
   CHECK_EQ(a.dimension(), m.shape.size(), what << ": dimension"); for (size_t j = 0; j < m.shape.size(); ++j) CHECK_EQ(a.shape(j), m.shape[j], what << ": shape");
   CHECK(a.isSimple(), what << ": not simple"); if (m.shape.empty()) m.order = a.coordinateOrder(); CHECK(a.coordinateOrder() == m.order, what << ": order");
   Vec x(m.shape.size(), 0); do { int g = m.shape.empty() ? a(0) : a(x.begin()); CHECK_EQ(g, m.at(x), what << ": element " << pbt::vec(x) << " of " << geo(a)); } while (nextC(x, m.shape));
   MV v = m.mv(); checkReads(c, static_cast<const marray::View<int, false>&>(a), v, &a(0) - 0);
}
int nextVal = 0; int fresh() { return ++nextVal % 1000; }
}
PROP(histories, 18000, 600000) {
   nextVal = 0; const size_t N = 3; std::vector<std::unique_ptr<marray::Marray<int> > > a(N); std::vector<MA> m(N); for (size_t i = 0; i < N; ++i) a[i].reset(new marray::Marray<int>());
   size_t ops = c.range(3, 14), grown = 0;
   for (size_t s = 0; s < ops; ++s) {
      size_t i = c.upTo(N - 1), j = c.upTo(N - 1); marray::Marray<int>& A = *a[i]; MA& M = m[i]; std::string what;
      size_t op = c.weighted({4, 4, 2, 2, 4, 2, 2, 1, 2, 2, 2, 2, 1, 2, 2, 1}); if (!M.init && op != 0 && op != 1 && op != 2 && op != 3 && op != 4 && op != 7 && op != 13) op = 0; if ((op == 4 || op == 13) && !m[j].init) op = 1;
      switch (op) {
         case 0: { Vec sh = anyShape(c, 3, 4, 40); int v = fresh(); CoordinateOrder o = anyOrder(c); a[i].reset(new marray::Marray<int>(sh.begin(), sh.end(), v, o)); M.set(sh, o, [&](const Vec&) { return v; }); what = "construct"; break; }
         case 1: { Vec sh = c.flip(0.1) ? Vec() : anyShape(c, 3, 4, 40); if (M.init && c.flip(0.4)) { sh = M.shape; for (size_t& q : sh) q = std::max<size_t>(1, q + c.sym(1)); } int v = fresh(); MA o = M; A.resize(sh.begin(), sh.end(), v); ++grown; what = pbt::str("resize to ", pbt::vec(sh));
            M.set(sh, o.order, [&](const Vec& x) { if (!o.init) return v; Vec y(o.shape.size(), 0); for (size_t k = 0; k < x.size(); ++k) { if (k < y.size()) y[k] = x[k]; else if (x[k]) return v; } for (size_t k = 0; k < y.size(); ++k) if (y[k] >= o.shape[k]) return v; return o.at(y); }); break; }
         case 2: { a[i].reset(new marray::Marray<int>(*a[j])); MA t = m[j]; M = t; what = "copy construction"; break; }
         case 3: { A = *a[j]; MA t = m[j]; M = t; what = "assignment"; break; }
         case 4: { marray::View<int, false> v(*a[j]); MV q = m[j].mv(); size_t k = c.small(0, 3); std::vector<int> byIdx(m[j].val.size()); for (size_t e = 0; e < byIdx.size(); ++e) byIdx[e] = m[j].at(coordOf(e, m[j].shape, m[j].order)); for (size_t e = 0; e < k; ++e) step(c, v, q); bool con = c.flip(0.3), ctor = c.flip(0.3);
            MA t; t.set(q.shape, q.order, [&](const Vec& x) { return byIdx[q.at(x)]; }); if (con) { marray::View<int, true> w(v); if (ctor) a[i].reset(new marray::Marray<int>(w)); else A = w; } else if (ctor) a[i].reset(new marray::Marray<int>(v)); else A = v; M = t; what = i == j ? "assignment from a view on itself" : "from a view"; break; }
         case 5: { int v = fresh(); A = v; for (int& x : M.val) x = v; what = "= value"; break; }
         case 6: { size_t e = c.upTo(M.val.size() - 1); int v = fresh(); Vec x = coordOf(e, M.shape, M.order); M.val[lastMajor(x, M.shape)] = v; A(e) = v; what = "write"; break; }
         case 7: { if (c.flip(0.5)) A.assign(); else a[i].reset(new marray::Marray<int>()); M = MA(); what = "clear"; break; }
         case 8: { MA o = M; MV q = M.mv(); Vec sh; size_t r = q.size(); while (r > 1) { Vec d; for (size_t z = 2; z <= r; ++z) if (r % z == 0) d.push_back(z); size_t z = c.pick(d); sh.push_back(z); r /= z; } if (sh.empty()) sh.push_back(1); A.reshape(sh.begin(), sh.end()); M.set(sh, o.order, [&](const Vec& x) { size_t e = o.order == LastMajorOrder ? lastMajor(x, sh) : firstMajor(x, sh); return o.at(coordOf(e, o.shape, o.order)); }); if (o.shape.empty()) M.order = A.coordinateOrder(); what = "reshape"; break; }
         case 9: { int v = fresh(); A += v; for (int& x : M.val) x += v; what = "+="; break; }
         case 10: { marray::Marray<int> old = A++; MA t = M; check(c, old, t, "post-increment result"); for (int& x : M.val) ++x; what = "post-increment"; break; }
         case 11: { A -= A; for (int& x : M.val) x = 0; what = "A -= A"; break; }
         case 12: { marray::Marray<double> d(A); marray::Marray<int> back(d); a[i].reset(new marray::Marray<int>(back)); what = "conversion to double and back"; break; }
         case 13: { marray::Marray<int> tmp; tmp = *a[j]; marray::Marray<int> z = tmp; z = z; MA t = m[j]; check(c, z, t, "copy of copy"); what = "copies"; break; }
         case 14: { marray::Marray<double> d(A); d += 0.5; A = d; what = "assignment from an array of another type (truncated)"; for (int& x : M.val) x = (int)(x + 0.5); break; }
         case 15: { Vec sh = anyShape(c, 3, 4, 40); MA o = M; A.resize(marray::SkipInitialization, sh.begin(), sh.end()); std::vector<int> gotv(prod(sh)); M.set(sh, o.order, [&](const Vec& x) { Vec y(o.shape.size(), 0); bool in = true; for (size_t k = 0; k < x.size(); ++k) { if (k < y.size()) y[k] = x[k]; else if (x[k]) in = false; } for (size_t k = 0; k < y.size(); ++k) if (y[k] >= o.shape[k]) in = false; if (in) return o.at(y); Vec xx(x); int f = fresh(); A(xx.begin()) = f; return f; }); what = "uninitialised resize"; break; }
      }
      c.note(pbt::str(s, ": array ", i, " (", j, ") ", what)); for (size_t k = 0; k < N; ++k) check(c, *a[k], m[k], what.c_str());
   }
   c.nontrivialIf(grown >= 1 && ops >= 5);
}
PROP(vectors, 12000, 300000) {
   std::vector<double> m; marray::Vector<double> v; size_t ops = c.range(2, 10); auto chk = [&](const std::string& w) { c.note(w); CHECK_EQ(v.size(), m.size(), w << ": size"); if (!m.empty()) { CHECK_EQ(v.dimension(), (size_t)1, w << ": dimension"); CHECK_EQ(v.shape(0), m.size(), w << ": shape"); CHECK(v.isSimple(), w << ": simple"); } for (size_t i = 0; i < m.size(); ++i) { CHECK_EQ(v[i], m[i], w << ": element " << i); CHECK_EQ(v(i), m[i], w << ": element " << i); } CHECK(std::equal(m.begin(), m.end(), v.begin()), w << ": iteration"); };
   for (size_t s = 0; s < ops; ++s) { std::string w; size_t op = c.upTo(11); double x = c.sym(20) / 2.0; if (m.empty() && (op == 3 || op == 5 || op == 6 || op == 7 || op == 9 || op == 10 || op == 11)) op = 0;
      switch (op) {
         case 0: { size_t n = c.range(0, 6); marray::Vector<double> t(n, x); v = t; m.assign(n, x); w = "construct"; break; }
         case 1: { size_t n = c.range(0, 8); v.resize(n, x); m.resize(n, x); if (n == 0) m.clear(); w = pbt::str("resize ", n); break; }
         case 2: { marray::Vector<double> t{1.5, x, 2.0}; v = t; m = {1.5, x, 2.0}; w = "list"; break; }
         case 3: { size_t i = c.upTo(m.size() - 1); v[i] = x; m[i] = x; w = "write"; break; }
         case 4: { marray::Marray<int> sc(7); v = sc; m.assign(1, 7); w = "= zero-dimensional array"; break; }
         case 5: { marray::View<double, false> q(v); size_t i = c.upTo(m.size() - 1); v = q.boundView(0, i); m.assign(1, m[i]); w = "= element of itself"; break; }
         case 6: { size_t lo = c.upTo(m.size() - 1), n = 1 + c.upTo(m.size() - lo - 1); size_t b[1] = {lo}, sh[1] = {n}; marray::View<double, false> q(v.view(b, sh)); v = q; m = std::vector<double>(m.begin() + lo, m.begin() + lo + n); w = "= sub-view of itself"; break; }
         case 7: { marray::Vector<double> t(v + v); v = t; for (double& e : m) e += e; w = "expression"; break; }
         case 8: { size_t r = c.range(1, 4), k = c.range(1, 4), row = c.upTo(r - 1); CoordinateOrder o = anyOrder(c); marray::Matrix<int> t(r, k, 0, o); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < k; ++j) t(i, j) = 10 * i + j; bool ctor = c.flip(0.5); if (ctor) { marray::Vector<double> u(t.boundView(0, row)); v = u; } else v = t.boundView(0, row); m.clear(); for (size_t j = 0; j < k; ++j) m.push_back(10 * row + j); w = "row of a matrix"; break; }
         case 9: { marray::Vector<double> t(v); v = t; v = v; w = "copies"; break; }
         case 10: { v = x; for (double& e : m) e = x; w = "= value"; break; }
         case 11: { v = v * 2.0 - v; w = "v = v*2 - v"; break; }
      } chk(w); }
   c.nontrivialIf(ops >= 4);
}
PROP(matrices, 12000, 300000) {
   struct M { size_t r = 0, k = 0; std::vector<int> v; int& at(size_t i, size_t j) { return v[i * k + j]; } } m; marray::Matrix<int> a; size_t ops = c.range(2, 10);
   auto chk = [&](const std::string& w) { c.note(w); CHECK_EQ(a.size(), m.v.size(), w << ": size"); if (m.v.empty()) return; CHECK_EQ(a.dimension(), (size_t)2, w << ": dimension"); CHECK(a.shape(0) == m.r && a.shape(1) == m.k, w << ": shape " << a.shape(0) << "x" << a.shape(1)); CHECK(a.isSimple(), w << ": simple"); for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.k; ++j) CHECK_EQ(a(i, j), m.at(i, j), w << ": element " << i << "," << j << " " << geo(a)); };
   for (size_t s = 0; s < ops; ++s) { std::string w; size_t op = c.upTo(9); int x = (int)c.sym(50); if (m.v.empty() && (op == 3 || op == 5 || op == 6 || op == 7 || op == 8 || op == 9)) op = 0;
      switch (op) {
         case 0: { m.r = c.range(1, 4); m.k = c.range(1, 4); CoordinateOrder o = anyOrder(c); marray::Matrix<int> t(m.r, m.k, x, o); for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.k; ++j) t(i, j) = x + 10 * i + j; a = t; m.v.resize(m.r * m.k); for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.k; ++j) m.at(i, j) = x + 10 * i + j; w = "construct"; break; }
         case 1: { size_t r = c.range(0, 5), k = c.range(0, 5); M n; n.r = r; n.k = k; n.v.assign(r * k, x); for (size_t i = 0; i < std::min(r, m.r); ++i) for (size_t j = 0; j < std::min(k, m.k); ++j) n.at(i, j) = m.at(i, j); if (n.v.empty()) n = M(); a.resize(r, k, x); m = n; w = pbt::str("resize ", r, "x", k); break; }
         case 2: { marray::Marray<double> sc(4.0); a = sc; m.r = m.k = 1; m.v.assign(1, 4); w = "= zero-dimensional array"; break; }
         case 3: { marray::View<int, false> q(a); size_t i = c.upTo(m.r - 1), j = c.upTo(m.k - 1); marray::View<int, false> e(q.boundView(0, i).boundView(0, j)); a = e; int z = m.at(i, j); m.r = m.k = 1; m.v.assign(1, z); w = "= element of itself"; break; }
         case 4: { size_t p = c.range(1, 3), r = c.range(1, 3), k = c.range(1, 3), z = c.upTo(p - 1), d = c.upTo(2); size_t sh[3]; size_t q = 0; for (size_t e = 0; e < 3; ++e) sh[e] = e == d ? p : (q++ == 0 ? r : k); marray::Marray<short> t(sh, sh + 3, 0, anyOrder(c)); size_t e = 0; for (auto it = t.begin(); it.hasMore(); ++it) *it = (short)e++; marray::View<short, false> bv(t.boundView(d, z)); if (c.flip(0.5)) { marray::Matrix<int> u(bv); a = u; } else a = bv; M n; n.r = r; n.k = k; n.v.resize(r * k); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < k; ++j) { size_t y[3]; size_t qq = 0; for (size_t f = 0; f < 3; ++f) y[f] = f == d ? z : (qq++ == 0 ? i : j); n.at(i, j) = t(y[0], y[1], y[2]); } m = n; w = "slice of an array"; break; }
         case 5: { size_t k = a.size(); Vec d; for (size_t z = 1; z <= k; ++z) if (k % z == 0) d.push_back(z); size_t r = c.pick(d); M n; n.r = r; n.k = k / r; n.v.resize(k); bool last = a.coordinateOrder() == LastMajorOrder; for (size_t e = 0; e < k; ++e) { int z = last ? m.at(e % m.r, e / m.r) : m.at(e / m.k, e % m.k); if (last) n.at(e % n.r, e / n.r) = z; else n.at(e / n.k, e % n.k) = z; } a.reshape(r, k / r); m = n; w = "reshape"; break; }
         case 6: { marray::View<int, false> q(a); q.transpose(); bool same = c.flip(0.5); if (same) a = q; else { marray::Matrix<int> t(q); a = t; } M n; n.r = m.k; n.k = m.r; n.v.resize(m.v.size()); for (size_t i = 0; i < n.r; ++i) for (size_t j = 0; j < n.k; ++j) n.at(i, j) = m.at(j, i); m = n; w = "transposed view of itself"; break; }
         case 7: { marray::Matrix<int> t(a * 2 + a); a = t; for (int& e : m.v) e = (e * 3) % 1000; a = a; for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.k; ++j) a(i, j) = m.at(i, j); w = "expression"; break; }
         case 8: { a = x; for (int& e : m.v) e = x; w = "= value"; break; }
         case 9: { size_t i = c.upTo(m.r - 1), j = c.upTo(m.k - 1); a(i, j) = x; m.at(i, j) = x; w = "write"; break; }
      } chk(w); }
   c.nontrivialIf(ops >= 4);
}
