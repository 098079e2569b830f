#pragma once
#include "mview.h"
#include <memory>
using namespace d01;
namespace {
template<class T> void fillMem(pbt::Ctx& c, std::vector<T>& mem) { uint64_t s = c.upTo(1 << 16); for (size_t i = 0; i < mem.size(); ++i) { int k = (int)(pbt::mix(s + i) % 17) - 8; if (!k) k = 5; mem[i] = std::is_floating_point<T>::value ? T(k / 2.0) : T(k); } }
template<class A> struct Operand { std::unique_ptr<Block<A> > b; marray::View<A, false> v; MV m; };
template<class A> void operand(pbt::Ctx& c, const Vec& shape, Operand<A>& r) {
   Vec p = c.perm(shape.size()), pb(shape.size()); for (size_t j = 0; j < p.size(); ++j) pb[p[j]] = shape[j] + (c.flip(0.2) ? 1 : 0);
   r.b.reset(new Block<A>(c, pb)); r.v = r.b->v; r.m = r.b->m; r.v.permute(p.begin()); r.m = r.m.permuted(p);
   Vec base; for (size_t j = 0; j < shape.size(); ++j) base.push_back(c.upTo(r.m.shape[j] - shape[j])); CoordinateOrder o = c.flip(0.3) ? anyOrder(c) : r.m.order; marray::View<A, false> z(r.v.view(base.begin(), shape.begin(), o)); r.v.assign(); r.v = z; r.m = r.m.sub(base, shape, o); fillMem(c, r.b->mem);
}
// result of an expression, evaluated to a target in several ways
template<class R, class E, class F> void evaluate(pbt::Ctx& c, const E& e, const Vec& shape, F elem, const char* form) {
   CHECK_EQ((size_t)e.dimension(), shape.size(), form << ": dimension"); CHECK_EQ((size_t)e.size(), prod(shape), form << ": size"); for (size_t j = 0; j < shape.size(); ++j) CHECK_EQ((size_t)e.shape(j), shape[j], form << ": shape");
   auto compare = [&](std::function<R(const Vec&)> get, const char* how) { Vec x(shape.size(), 0); do { R w = (R)elem(x); R g = get(x); CHECK(g == w, form << " " << how << " at " << pbt::vec(x) << ": " << g << " expected " << w); } while (nextC(x, shape)); };
   switch (c.upTo(4)) {
      case 0: { marray::Marray<R> r(e); CHECK(r.isSimple(), "an array built from an expression is not simple"); compare([&](const Vec& x) { Vec y = x; return r(y.begin()); }, "constructing an array"); break; }
      case 1: { Vec s0 = anyShape(c, 3, 4, 40); marray::Marray<R> r(s0.begin(), s0.end(), R(7), anyOrder(c)); r = e; CHECK_EQ(r.dimension(), shape.size(), "dimension of an array assigned an expression"); CHECK(r.coordinateOrder() == e.coordinateOrder(), "order of an array assigned an expression"); compare([&](const Vec& x) { Vec y = x; return r(y.begin()); }, "assigned to an array"); break; }
      case 2: { Operand<R> t; operand(c, shape, t); std::vector<R> want = t.b->mem; Vec x(shape.size(), 0); do { want[t.m.at(x)] = (R)elem(x); } while (nextC(x, shape)); t.v = e; for (size_t i = 0; i < want.size(); ++i) CHECK(t.b->mem[i] == want[i], form << " assigned to " << t.m.str() << ": memory element " << i << " is " << t.b->mem[i] << " expected " << want[i]); break; }
      case 3: { compare([&](const Vec& x) { Vec y = x; return (R)e(y.begin()); }, "read by coordinates"); break; }
      case 4: { if (shape.size() == 2) compare([&](const Vec& x) { return (R)e(x[0], x[1]); }, "read by 2 coordinates"); else if (shape.size() == 3) compare([&](const Vec& x) { return (R)e(x[0], x[1], x[2]); }, "read by 3 coordinates"); else if (shape.size() == 4) compare([&](const Vec& x) { return (R)e(x[0], x[1], x[2], x[3]); }, "read by 4 coordinates"); break; }
   }
}
#define FORM(I, EXPR) case I: { auto elem = [&](const Vec& x) { const A a = oa.b->mem[oa.m.at(x)]; const B b = ob.b->mem[ob.m.at(x)]; const A d = oc.b->mem[oc.m.at(x)]; (void)a; (void)b; (void)d; return (EXPR); }; const marray::View<A, false>& a = oa.v; const marray::View<B, false>& b = ob.v; const marray::View<A, false>& d = oc.v; (void)a; (void)b; (void)d; c.note("form " #EXPR); evaluate<R>(c, (EXPR), shape, elem, #EXPR); break; }
template<class A, class B, class S, class R> void forms(pbt::Ctx& c) {
   Vec shape = anyShape(c, 4, 4, 60); Operand<A> oa, oc; Operand<B> ob; operand(c, shape, oa); operand(c, shape, ob); operand(c, shape, oc);
   S s = S(c.sym(8)) / S(2); if (s == S(0)) s = S(3);
   c.note(pbt::str("a ", oa.m.str(), "\nb ", ob.m.str(), "\nd ", oc.m.str(), "\ns ", s)); c.nontrivialIf(prod(shape) >= 3); c.labelIf(!(oa.v.isSimple() && ob.v.isSimple()), "strided operand"); c.labelIf(oa.m.order != ob.m.order, "mixed orders");
   switch (c.upTo(19)) {
      FORM(0, a + b) FORM(1, a - b) FORM(2, a * b) FORM(3, a / b) FORM(4, -a) FORM(5, +a)
      FORM(6, a + s) FORM(7, a - s) FORM(8, a * s) FORM(9, a / s) FORM(10, s + a) FORM(11, s - a) FORM(12, s * a) FORM(13, s / a)
      FORM(14, (a + b) * (d - b)) FORM(15, -(a * b) + s) FORM(16, (s - a) * b) FORM(17, a + b + d) FORM(18, a - (b - d)) FORM(19, (a * s) / b)
   }
}
}
