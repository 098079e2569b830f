#include "gen_model.hxx"
#include <list>
#include <deque>
using namespace gen;

template<class GM> static void checkEval(pbt::Ctx& c, const GM& gm, const Model& m, bool mult, const char* what) {
   CHECK_EQ(gm.numberOfVariables(), m.n(), what);
   CHECK_EQ(gm.numberOfFactors(), m.factors.size(), what);
   size_t total = m.nConfigs();
   auto one = [&](const Vec& x) {
      double ref = m.value(x, mult);
      typedef typename GM::ValueType V; typedef typename GM::LabelType L;
      std::vector<L> xl(x.begin(), x.end());
      V v1 = gm.evaluate(xl.begin());
      CHECK_EQ((double)v1, ref, what << " labels " << pbt::vec(x));
      for (size_t f = 0; f < m.factors.size(); ++f) {
         const Factor& fa = m.factors[f];
         std::vector<L> cl; for (size_t v : fa.vars) cl.push_back((L)x[v]); cl.push_back(0);
         CHECK_EQ((double)gm[f](cl.begin()), m.factorValue(f, x), what << " factor " << f << " labels " << pbt::vec(x));
         // labels of the factor read straight from a labeling of the model
         CHECK_EQ((double)gm[f](gm[f].gmToFactorLabelsBegin(xl.begin())), m.factorValue(f, x), what << " factor " << f << " via gmToFactorLabels " << pbt::vec(x));
         std::vector<L> gl(gm[f].gmToFactorLabelsBegin(xl.begin()), gm[f].gmToFactorLabelsEnd(xl.begin())); cl.pop_back();
         CHECK(gl == cl, what << " gmToFactorLabels of factor " << f);
      }
   };
   if (total <= 64) forAll(m.labels, one);
   else for (int k = 0; k < 24; ++k) { Vec x; for (size_t l : m.labels) x.push_back(c.upTo(l - 1)); one(x); }
   for (size_t f = 0; f < m.factors.size(); ++f) {
      CHECK_EQ((size_t)gm[f].numberOfVariables(), m.factors[f].vars.size(), what);
      CHECK_EQ((size_t)gm[f].size(), prodOf(shapeOf(m, m.factors[f].vars)), what << " size of factor " << f);
      for (size_t k = 0; k < m.factors[f].vars.size(); ++k) {
         CHECK_EQ((size_t)gm[f].variableIndex(k), m.factors[f].vars[k], what);
         CHECK_EQ((size_t)gm[f].numberOfLabels(k), m.labels[m.factors[f].vars[k]], what);
         CHECK_EQ((size_t)gm[f].shape(k), m.labels[m.factors[f].vars[k]], what);
      }
   }
}
static void classify(pbt::Ctx& c, const Model& m) {
   c.nontrivialIf(m.factors.size() >= 2 && m.nConfigs() >= 2);
   for (auto& f : m.factors) c.label(std::string("kind:") + kindName(m.funcs[f.f].kind));
   c.label("order:" + pbt::str(m.order()));
   c.labelIf(m.funcs.size() < m.factors.size(), "shared-function");
}

PROP(sum_all_types, 30000, 600000) {
   Opt o; o.maxOrder = 4; o.maxVars = 6; Model m = genModel(c, o); c.note(m.str()); classify(c, m);
   typedef SumGMs::All GM; GM gm = buildAll<GM>(m);
   checkEval(c, gm, m, false, "all types");
   // containers / iterators
   Vec x; for (size_t l : m.labels) x.push_back(c.upTo(l - 1));
   std::deque<unsigned> dq(x.begin(), x.end());
   CHECK_EQ(gm.evaluate(dq.begin()), m.sum(x), "deque iterator");
   if (!x.empty()) { CHECK_EQ(gm.evaluate(&x[0]), m.sum(x), "pointer"); }
   std::vector<unsigned char> cb(x.begin(), x.end());
   CHECK_EQ(gm.evaluate(cb.begin()), m.sum(x), "vector<unsigned char>");
}
PROP(product_permuted_types, 20000, 400000) {
   Opt o; o.positive = true; o.zeroValue = true; o.maxFactors = 7; Model m = genModel(c, o); c.note(m.str()); classify(c, m);
   typedef MulGMs::Permuted GM; GM gm = buildAll<GM>(m);
   checkEval(c, gm, m, true, "product model");
}
PROP(explicit_equals_encoded, 20000, 400000) {
   Opt o; o.maxOrder = 4; Model m = genModel(c, o); c.note(m.str()); classify(c, m);
   SumGMs::Expl a = buildExplicit<SumGMs::Expl>(m);
   checkEval(c, a, m, false, "explicit");
   // construction order of functions/factors is irrelevant for the value
   Model p; p.labels = m.labels; p.funcs = m.funcs;
   Vec perm = c.perm(m.factors.size()); for (size_t i : perm) p.factors.push_back(m.factors[i]);
   SumGMs::All b = buildAll<SumGMs::All>(p);
   Vec x; for (size_t l : m.labels) x.push_back(c.upTo(l - 1));
   CHECK_EQ(a.evaluate(x.begin()), b.evaluate(x.begin()), "permuted construction");
}

// identifiers of functions are totally ordered and unique
PROP(identifier_order, 20000, 200000) {
   typedef SumGMs::All::FunctionIdentifier Id;
   long mx = c.flip() ? 2 : 300;
   auto gen = [&] { return Id(c.range(0, mx), c.range(0, std::min<long>(mx, 255))); };
   Id a = gen(), b = c.flip(0.2) ? a : gen(), d = gen();
   c.note("a=(" + pbt::str((int)a.functionType) + "," + pbt::str(a.functionIndex) + ") b=(" + pbt::str((int)b.functionType) + "," + pbt::str(b.functionIndex) + ") d=(" + pbt::str((int)d.functionType) + "," + pbt::str(d.functionIndex) + ")");
   bool eq = a.functionIndex == b.functionIndex && a.functionType == b.functionType;
   CHECK_EQ(a == b, eq, "==");
   CHECK_EQ((int)(a < b) + (int)(b < a) + (int)eq, 1, "exactly one of a<b, b<a, a==b");
   CHECK_EQ(a > b, b < a, ">"); CHECK_EQ(a <= b, !(b < a), "<="); CHECK_EQ(a >= b, !(a < b), ">=");
   if (a < b && b < d) CHECK(a < d, "transitivity");
   CHECK_EQ((size_t)a.getFunctionIndex(), (size_t)a.functionIndex, "index"); CHECK_EQ((int)a.getFunctionType(), (int)a.functionType, "type");
   c.nontrivialIf(!eq);
}
