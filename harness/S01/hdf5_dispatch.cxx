// FLAGS: HDF5
// S01: models of up to 20 function types, also read into a model that knows more types than were written
#include "hdf5.h"
#include "tabs.hxx"
struct TabEntry { size_t type; Vec vars; std::vector<double> v; unsigned bits; double answer; };
template<class GM> struct TabAdder { GM& gm; const Vec& shape; const TabEntry& e; typename GM::FunctionIdentifier id; template<int N> void run() { id = gm.addFunction(tabs::Tab<N>(shape, e.v, e.bits, e.answer)); } };
template<class GM> struct TabSame { const GM& gm; size_t f; const TabEntry& e; const Vec& shape; bool ok; template<int N> void run() { const tabs::Tab<N>& t = gm[f].template function<N>(); ok = t.shape_ == shape && t.v_ == e.v && t.bits_ == e.bits && t.answer_ == e.answer; } };
template<int K, int K2> static void trip(pbt::Ctx& c) {
   typedef typename tabs::GM<K>::type GM; typedef typename tabs::GM<K2>::type GM2;
   const size_t n = c.range(1, 5), nf = c.range(1, 2 + K);
   Vec labels(n); for (auto& l : labels) l = c.range(1, 3);
   GM gm(opengm::DiscreteSpace<size_t, size_t>(labels.begin(), labels.end()));
   std::vector<TabEntry> es; std::vector<Vec> shapes; std::vector<typename GM::FunctionIdentifier> ids; std::set<size_t> types; std::ostringstream os; os << "types " << K << " to " << K2 << " labels " << pbt::vec(labels) << " factors";
   for (size_t f = 0; f < nf; ++f) {
      TabEntry e; Vec shape;
      if (f && c.flip(0.2)) { e = es.back(); shape = shapes.back(); ids.push_back(ids.back()); c.label("shared function"); }
      else {
         e.type = c.flip(0.3) ? K - 1 - c.upTo(std::min(3, K - 1)) : c.upTo(K - 1); e.vars = c.subset(n, c.upTo(std::min<size_t>(3, n))); e.bits = c.range(0, 255); e.answer = double(c.range(-40, 40)) / 8;
         size_t sz = 1; for (size_t v : e.vars) { shape.push_back(labels[v]); sz *= labels[v]; }
         for (size_t k = 0; k < sz; ++k) e.v.push_back(double(c.range(-40, 40)) / 4);
         TabAdder<GM> a = {gm, shape, e, typename GM::FunctionIdentifier()}; tabs::At<K>::call(e.type, a); ids.push_back(a.id);
      }
      gm.addFactor(ids.back(), e.vars.begin(), e.vars.end());
      es.push_back(e); shapes.push_back(shape); types.insert(e.type); os << " " << e.type << pbt::vec(e.vars) << "=" << pbt::vec(e.v) << "/" << e.bits << "/" << e.answer;
   }
   c.note(os.str()); c.nontrivialIf(types.size() > 1); c.labelIf(*types.rbegin() > 15, "type beyond 15");
   TempFile file; opengm::hdf5::save(gm, file.path, "gm");
   GM2 b; opengm::hdf5::load(b, file.path, "gm");
   CHECK_EQ((size_t)b.numberOfVariables(), n, "variables"); CHECK_EQ((size_t)b.numberOfFactors(), nf, "factors");
   for (size_t v = 0; v < n; ++v) CHECK_EQ((size_t)b.numberOfLabels(v), labels[v], "labels of " << v);
   for (size_t f = 0; f < nf; ++f) {
      CHECK(Vec(b[f].variableIndicesBegin(), b[f].variableIndicesEnd()) == es[f].vars, "variables of factor " << f);
      CHECK_EQ((size_t)b[f].functionType(), es[f].type, "type of factor " << f);
      CHECK_EQ((size_t)b[f].functionIndex(), (size_t)gm[f].functionIndex(), "function index of factor " << f);
      TabSame<GM2> s = {b, f, es[f], shapes[f], false}; tabs::At<K2>::call(es[f].type, s); CHECK(s.ok, "function of factor " << f);
   }
   Vec x; for (size_t l : labels) x.push_back(c.upTo(l - 1));
   CHECK_EQ(b.evaluate(x.begin()), gm.evaluate(x.begin()), "value at " << pbt::vec(x));
}
PROP(many_types_same, 400, 10000) { trip<20, 20>(c); }
PROP(many_types_superset, 400, 10000) { trip<17, 20>(c); }
PROP(two_types, 400, 8000) { trip<2, 2>(c); }
PROP(two_types_superset, 400, 8000) { trip<2, 3>(c); }
