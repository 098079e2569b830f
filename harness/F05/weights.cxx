#include "gen_model.hxx"
#include <opengm/graphicalmodel/weights.hxx>
#include <opengm/functions/learnable/lpotts.hxx>
#include <opengm/functions/learnable/lunary.hxx>
#include <opengm/functions/learnable/lweightedsum_of_functions.hxx>
#include <opengm/functions/unary_loss_function.hxx>
using namespace gen;
using opengm::learning::Weights;
template<class T> struct LF {
   typedef opengm::functions::learnable::LPotts<T, size_t, size_t> P; typedef opengm::functions::learnable::LUnary<T, size_t, size_t> U; typedef opengm::functions::learnable::LWeightedSumOfFunctions<T, size_t, size_t> W;
   typedef typename opengm::meta::TypeListGenerator<P, U, W>::type TL; typedef opengm::GraphicalModel<T, opengm::Adder, TL, opengm::DiscreteSpace<> > GM;
};
// reference description: per weight number an index into the weights and a gradient table
struct Ref { Vec shape; std::vector<size_t> ids; std::vector<DVec> grad; int kind; };
template<class F> static void checkF(pbt::Ctx& c, const F& f, const Ref& r, const DVec& w, const char* what) {
   CHECK_EQ((size_t)f.dimension(), r.shape.size(), what << ": dimension"); CHECK_EQ((size_t)f.size(), prodOf(r.shape), what << ": size"); for (size_t d = 0; d < r.shape.size(); ++d) CHECK_EQ((size_t)f.shape(d), r.shape[d], what << ": shape");
   CHECK_EQ((size_t)f.numberOfWeights(), r.ids.size(), what << ": number of weights"); for (size_t i = 0; i < r.ids.size(); ++i) CHECK_EQ((size_t)f.weightIndex(i), r.ids[i], what << ": index of weight " << i);
   forAll(r.shape, [&](const Vec& x) { double e = 0; size_t k = idxOf(r.shape, x); for (size_t i = 0; i < r.ids.size(); ++i) { CHECK_NEAR((double)f.weightGradient(i, x.begin()), r.grad[i][k], 1e-9, what << ": gradient for weight " << i << " at " << pbt::vec(x)); e += w[r.ids[i]] * r.grad[i][k]; } CHECK_NEAR((double)f(x.begin()), e, 1e-4, what << ": value at " << pbt::vec(x)); });
}
template<class T> static void history(pbt::Ctx& c) {
   typedef LF<T> L; typedef typename L::GM GM; size_t nw = c.range(1, 6); DVec ref[2]; Weights<T> store[2] = { Weights<T>(nw), Weights<T>(nw) };
   for (int s = 0; s < 2; ++s) { CHECK_EQ((size_t)store[s].numberOfWeights(), nw, "number of weights"); for (size_t i = 0; i < nw; ++i) { CHECK_EQ((double)store[s].getWeight(i), 0.0, "initial weight"); double v = c.sym(8) / 4.0; ref[s].push_back(v); store[s].setWeight(i, v); } }
   size_t nv = c.range(1, 4); Vec labels; bool same = c.flip(0.7); size_t l0 = c.range(1, 4); for (size_t i = 0; i < nv; ++i) labels.push_back(same ? l0 : c.range(1, 4));
   GM gm(opengm::DiscreteSpace<>(labels.begin(), labels.end())); std::vector<Ref> refs; std::vector<Vec> scopes; std::vector<typename L::P> ps; std::vector<typename L::U> us; std::vector<typename L::W> ws;
   size_t nf = c.range(1, 4); std::set<size_t> used;
   for (size_t k = 0; k < nf; ++k) {
      Ref r; Vec scope; r.kind = c.upTo(2);
      if (r.kind == 0 && (nv < 2)) r.kind = 1;
      if (r.kind == 0) { scope = c.subset(nv, 2); if (labels[scope[0]] != labels[scope[1]]) r.kind = 2; }
      if (r.kind == 0) {
         size_t n = c.upTo(3); r.shape = Vec(2, labels[scope[0]]); std::vector<T> feat; for (size_t i = 0; i < n; ++i) { r.ids.push_back(c.upTo(nw - 1)); feat.push_back(c.sym(8) / 2.0); DVec g; forAll(r.shape, [&](const Vec& x) { g.push_back(x[0] != x[1] ? (double)feat.back() : 0.0); }); r.grad.push_back(g); }
         typename L::P f(store[0], r.shape[0], r.ids, feat), g(r.shape[0], r.ids, feat); g.setWeights(store[0]); ps.push_back(c.flip() ? f : g); CHECK(f.isPotts() && f.isGeneralizedPotts(), "Potts property"); }
      else if (r.kind == 1) {
         scope.assign(1, c.upTo(nv - 1)); size_t l = labels[scope[0]]; r.shape.assign(1, l); bool form = c.flip();
         if (form) { std::vector<opengm::functions::learnable::FeaturesAndIndices<T, size_t> > fi(l); std::vector<size_t> pool = c.perm(nw);
            for (size_t q = 0; q < l; ++q) { size_t n = c.upTo(2); for (size_t i = 0; i < n && !pool.empty(); ++i) { double v = c.sym(8) / 2.0; fi[q].features.push_back(v); fi[q].weightIds.push_back(pool.back()); r.ids.push_back(pool.back()); pool.pop_back(); DVec g(l, 0.0); g[q] = v; r.grad.push_back(g); } }
            us.push_back(typename L::U(store[0], fi)); }
         else { bool first = c.flip() && l > 1; size_t rows = l - first, cols = c.range(1, 3); size_t sh[] = { rows, cols }; marray::Marray<size_t> ids(sh, sh + 2, size_t(0), c.flip() ? marray::FirstMajorOrder : marray::LastMajorOrder); marray::Marray<T> feat(sh + 1, sh + 2); for (size_t j = 0; j < cols; ++j) feat(j) = c.sym(8) / 2.0;
            for (size_t q = 0; q < rows; ++q) for (size_t j = 0; j < cols; ++j) { ids(q, j) = c.upTo(nw - 1); r.ids.push_back(ids(q, j)); DVec g(l, 0.0); g[q + first] = feat(j); r.grad.push_back(g); }
            c.labelIf(first, "first label constant"); us.push_back(typename L::U(store[0], l, ids, feat, first)); } }
      else { scope = c.subset(nv, c.range(1, std::min<size_t>(3, nv))); r.shape = shapeOf(Model(), Vec()); r.shape.clear(); for (size_t v : scope) r.shape.push_back(labels[v]); size_t n = c.upTo(3); std::vector<marray::Marray<T> > feat;
         for (size_t i = 0; i < n; ++i) { r.ids.push_back(c.upTo(nw - 1)); marray::Marray<T> a(r.shape.begin(), r.shape.end(), T(0), c.flip() ? marray::FirstMajorOrder : marray::LastMajorOrder); DVec g; forAll(r.shape, [&](const Vec& x) { g.push_back(c.sym(6) / 2.0); a(x.begin()) = g.back(); }); feat.push_back(a); r.grad.push_back(g); }
         ws.push_back(typename L::W(r.shape, store[0], r.ids, feat)); }
      for (size_t i : r.ids) used.insert(i); refs.push_back(r); scopes.push_back(scope); c.note(pbt::str("function kind ", r.kind, " scope ", pbt::vec(scope), " weights ", pbt::vec(r.ids)));
   }
   { size_t ip = 0, iu = 0, iw = 0; for (size_t k = 0; k < nf; ++k) { typename GM::FunctionIdentifier id = refs[k].kind == 0 ? gm.addFunction(ps[ip++]) : refs[k].kind == 1 ? gm.addFunction(us[iu++]) : gm.addFunction(ws[iw++]); gm.addFactor(id, scopes[k].begin(), scopes[k].end()); } }
   int bound = 0; bool changed = false;
   auto check = [&](const char* what) { size_t ip = 0, iu = 0, iw = 0; const DVec& w = ref[bound]; for (size_t k = 0; k < nf; ++k) { if (refs[k].kind == 0) checkF(c, ps[ip++], refs[k], w, what); else if (refs[k].kind == 1) checkF(c, us[iu++], refs[k], w, what); else checkF(c, ws[iw++], refs[k], w, what); }
      GM copy(gm); size_t budget = 64; forAll(labels, [&](const Vec& x) { if (!budget) return; --budget; double e = 0; for (size_t k = 0; k < nf; ++k) { Vec y; for (size_t v : scopes[k]) y.push_back(x[v]); for (size_t i = 0; i < refs[k].ids.size(); ++i) e += ref[0][refs[k].ids[i]] * refs[k].grad[i][idxOf(refs[k].shape, y)]; }
         CHECK_NEAR((double)gm.evaluate(x.begin()), e, 1e-3, what << ": objective of the model bound to the first weights"); CHECK_NEAR((double)copy.evaluate(x.begin()), e, 1e-3, what << ": objective of a copy of the model"); });
      for (int s = 0; s < 2; ++s) for (size_t i = 0; i < nw; ++i) CHECK_NEAR((double)store[s].getWeight(i), ref[s][i], 1e-12, what << ": stored weight " << i); };
   check("initially");
   size_t steps = c.range(1, 5);
   for (size_t t = 0; t < steps; ++t) switch (c.upTo(4)) {
      case 0: case 1: { int s = c.upTo(1); size_t i = c.upTo(nw - 1); double v = c.sym(8) / 4.0; if (c.flip()) store[s].setWeight(i, v); else store[s][i] = v; if (s == bound && used.count(i) && v != ref[s][i]) changed = true; ref[s][i] = v; c.note(pbt::str("weights ", s, " [", i, "] = ", v)); check("after an update"); break; }
      case 2: { bound = c.upTo(1); c.note(pbt::str("rebind to ", bound)); for (auto& f : ps) f.setWeights(store[bound]); for (auto& f : us) f.setWeights(store[bound]); for (auto& f : ws) f.setWeights(store[bound]); check("after rebinding"); break; }
      case 3: { std::vector<typename L::P> p2(ps); std::vector<typename L::U> u2(us); std::vector<typename L::W> w2(ws); ps = p2; us.swap(u2); ws = w2; check("after copying"); break; }
      default: { Weights<T> k(store[0]); CHECK_EQ((size_t)k.numberOfWeights(), nw, "copied weights"); k.setWeight(0, k.getWeight(0) + 1); check("after changing a copy of the weights"); break; }
   }
   c.nontrivialIf(changed);
}
PROP(learnable_history, 15000, 200000) { if (c.flip(0.3)) history<float>(c); else history<double>(c); }

PROP(weight_constraints, 3000, 100000) {
   typedef opengm::learning::WeightConstraints<double> WC; size_t nw = c.range(1, 5); DVec lb, ub; for (size_t i = 0; i < nw; ++i) { lb.push_back(c.sym(8) / 2.0); ub.push_back(lb[i] + c.upTo(8) / 2.0); }
   WC a(nw), b(lb.begin(), lb.end(), ub.begin()); const double inf = std::numeric_limits<double>::infinity();
   for (size_t i = 0; i < nw; ++i) { CHECK_EQ(a.weightLowerBound(i), -inf, "default lower bound"); CHECK_EQ(a.weightUpperBound(i), inf, "default upper bound"); CHECK_EQ(b.weightLowerBound(i), lb[i], "lower bound"); CHECK_EQ(b.weightUpperBound(i), ub[i], "upper bound"); }
   if (c.flip()) { a.setLowerBounds(lb.begin(), lb.end()); a.setUpperBounds(ub.begin(), ub.end()); CHECK(a.weightLowerBounds() == lb && a.weightUpperBounds() == ub, "bounds set"); }
   size_t n = c.upTo(4); std::vector<Vec> idx; DVec cl, cu; Vec sz;
   for (size_t k = 0; k < n; ++k) { Vec ix = c.subsetOf(nw); DVec co; for (size_t i = 0; i < ix.size(); ++i) co.push_back(c.sym(4)); double l = c.sym(8) / 2.0, u = l + c.upTo(4); a.addConstraint(ix.begin(), ix.end(), co.begin(), l, u); idx.push_back(ix); cl.push_back(l); cu.push_back(u); sz.push_back(ix.size()); c.note(pbt::str("constraint ", l, " <= ", pbt::vec(co), " w", pbt::vec(ix), " <= ", u));
      CHECK_EQ(a.numberOfConstraints(), k + 1, "number of constraints"); for (size_t j = 0; j <= k; ++j) { CHECK_EQ(a.constraintSize(j), idx[j].size(), "size of constraint " << j); }
      CHECK_EQ(a.constraintLowerBounds().size(), k + 1, "one lower bound per constraint"); CHECK_EQ(a.constraintUpperBounds().size(), k + 1, "one upper bound per constraint"); for (size_t j = 0; j <= k; ++j) { CHECK_EQ(a.constraintLowerBound(j), cl[j], "lower bound of constraint " << j); CHECK_EQ(a.constraintUpperBound(j), cu[j], "upper bound of constraint " << j); }
      CHECK(a.constraintSizes() == sz, "sizes of the constraints"); }
   CHECK_EQ(a.numberOfConstraints(), n, "number of constraints"); c.nontrivialIf(n > 1);
}
PROP(regularizer, 2000, 50000) {
   typedef opengm::learning::WeightRegularizer<double> R; size_t nw = c.upTo(5); Weights<double> w(nw); double l1 = 0, l2 = 0; for (size_t i = 0; i < nw; ++i) { double v = c.sym(12) / 4.0; w.setWeight(i, v); l1 += std::fabs(v); l2 += v * v; } double la = c.upTo(8) / 4.0; c.nontrivialIf(nw > 1 && la > 0 && l1 > 0);
   R none(-1, la), a(1, la), b(2, la), d(R::L1Regularizer, la), def; CHECK_NEAR(none.evaluate(w), 0.0, 0, "no regulariser"); CHECK_NEAR(a.evaluate(w), la * l1, 1e-12, "L1"); CHECK_NEAR(b.evaluate(w), la * l2, 1e-12, "L2"); CHECK_NEAR(d.evaluate(w), la * l1, 1e-12, "L1 by type"); CHECK_NEAR(def.evaluate(w), l2, 1e-12, "default is L2 with factor 1");
   CHECK_EQ(none.regularizerNorm(), -1, "norm"); CHECK_EQ(a.regularizerNorm(), 1, "norm"); CHECK_EQ(b.regularizerNorm(), 2, "norm"); CHECK_EQ(a.lambda(), la, "lambda"); bool threw = false; try { R bad((int)c.range(3, 9)); } catch (opengm::RuntimeError&) { threw = true; } CHECK(threw, "unknown norms are rejected");
}
PROP(unary_loss, 4000, 100000) {
   typedef opengm::UnaryLossFunction<double, size_t, size_t> F; size_t l = c.range(1, 5), gt = c.upTo(l - 1); double m = c.sym(8) / 2.0; F::SharedMultiplers sm; int type = c.upTo(5); size_t sh[] = { l, l }; DVec t;
   if (type == 3) { sm.labelMult_ = marray::Marray<double>(sh, sh + 2); for (size_t i = 0; i < l; ++i) for (size_t j = 0; j < l; ++j) sm.labelMult_(i, j) = c.sym(8) / 2.0; } else { sm.labelMult_ = marray::Marray<double>(sh, sh + 1); for (size_t i = 0; i < l; ++i) sm.labelMult_(i) = c.sym(8) / 2.0; }
   F f(l, gt, (F::LossType)type, m, sm, false); CHECK_EQ((size_t)f.dimension(), 1u, "dimension"); CHECK_EQ((size_t)f.shape(0), l, "shape"); CHECK_EQ((size_t)f.size(), l, "size"); c.label(pbt::str("type ", type)); c.nontrivialIf(l > 1 && m != 0);
   for (size_t x = 0; x < l; ++x) { double d = (double)x - (double)gt, diff = x != gt, e = 0; switch (type) { case 0: e = -m * diff; break; case 1: e = m * diff * sm.labelMult_(x); break; case 2: e = m * diff * sm.labelMult_(gt); break; case 3: e = m * diff * sm.labelMult_(x, gt); break; case 4: e = m * std::fabs(d); break; default: e = m * d * d; }
      CHECK_NEAR(f(&x), e, 1e-12, "loss type " << type << " true label " << gt << " at label " << x); }
}
