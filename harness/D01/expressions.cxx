#include "expr.h"
PROP(doubles, 24000, 450000) { forms<double, double, double, double>(c); }
PROP(ints, 24000, 450000) { forms<int, int, int, int>(c); }
// the target takes part in the expression
PROP(aliased_expressions, 15000, 450000) {
   Block<double> b(c, 3, 5, 120); fillMem(c, b.mem); Vec s, b1, b2; for (size_t j = 0; j < b.m.dim(); ++j) { size_t k = 1 + c.upTo(b.m.shape[j] - 1); s.push_back(k); b1.push_back(c.upTo(b.m.shape[j] - k)); b2.push_back(c.upTo(b.m.shape[j] - k)); }
   CoordinateOrder o1 = anyOrder(c), o2 = anyOrder(c); marray::View<double, false> v(b.v.view(b1.begin(), s.begin(), o1)), w(b.v.view(b2.begin(), s.begin(), o2)); MV m = b.m.sub(b1, s, o1), n = b.m.sub(b2, s, o2); Vec p = c.perm(s.size()); bool ok = true; for (size_t j = 0; j < s.size(); ++j) if (s[p[j]] != s[j]) ok = false; if (ok) { w.permute(p.begin()); n = n.permuted(p); }
   c.note(pbt::str("v ", m.str(), "\nw ", n.str())); c.nontrivialIf(m.shares(n) && m.size() > 1); std::vector<double> want = b.mem; int form = c.upTo(4); Vec x(s.size(), 0); do { double a = b.mem[m.at(x)], d = b.mem[n.at(x)]; want[m.at(x)] = form == 0 ? a + d : form == 1 ? d - 2.0 : form == 2 ? a * d - a : form == 3 ? -d : 3.0 / d; } while (nextC(x, s));
   switch (form) { case 0: v = v + w; break; case 1: v = w - 2.0; break; case 2: v = v * w - v; break; case 3: v = -w; break; default: v = 3.0 / w; }
   for (size_t i = 0; i < want.size(); ++i) CHECK(b.mem[i] == want[i], "form " << form << ": memory element " << i << " is " << b.mem[i] << " expected " << want[i]);
}
PROP(array_reassigned_from_itself, 12000, 300000) {
   Vec s = anyShape(c, 3, 4, 60); CoordinateOrder o = anyOrder(c); marray::Marray<double> a(s.begin(), s.end(), 0.0, o); MV m = MV::make(s, o, [&](const Vec& x) { return o == LastMajorOrder ? lastMajor(x, s) : firstMajor(x, s); }); std::vector<double> val(a.size()); for (size_t i = 0; i < val.size(); ++i) { val[i] = i + 1; a(i) = i + 1.0; }
   marray::View<double, false> v(a); size_t k = c.small(0, 3); for (size_t i = 0; i < k; ++i) step(c, v, m); c.note(m.str()); int form = c.upTo(3); CoordinateOrder ro = m.order;
   switch (form) { case 0: a = v; break; case 1: a = v + v; break; case 2: a = -v; break; default: a = v * 2.0 + 1.0; }
   CHECK_EQ(a.dimension(), m.dim(), "dimension"); CHECK_EQ(a.size(), m.size(), "size"); CHECK(a.isSimple(), "simple"); CHECK(m.dim() == 0 || a.coordinateOrder() == ro, "order"); c.nontrivialIf(m.size() > 1 && k);
   Vec x(m.dim(), 0); do { double z = val[m.at(x)], w = form == 0 ? z : form == 1 ? z + z : form == 2 ? -z : z * 2.0 + 1.0; CHECK_EQ(m.dim() ? a(x.begin()) : a(0), w, "form " << form << " at " << pbt::vec(x)); } while (nextC(x, m.shape));
}
