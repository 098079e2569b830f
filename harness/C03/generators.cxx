// C03: SyntheticModelGenerator::buildGrid against the documented structure
#include "pbt.hxx"
#include <opengm/opengm.hxx>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/constant.hxx>
#include <opengm/functions/potts.hxx>
#include <opengm/functions/absolute_difference.hxx>
#include <opengm/functions/truncated_absolute_difference.hxx>
#include <opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx>
#include <map>
#include <set>
using pbt::Ctx;
typedef std::vector<size_t> V;

template<class GM> std::string same(const GM& a, const GM& b) {
   if (a.numberOfVariables() != b.numberOfVariables() || a.numberOfFactors() != b.numberOfFactors()) return "sizes";
   for (size_t v = 0; v < a.numberOfVariables(); ++v) if (a.numberOfLabels(v) != b.numberOfLabels(v)) return pbt::str("labels of variable ", v);
   for (size_t f = 0; f < a.numberOfFactors(); ++f) {
      if (a[f].numberOfVariables() != b[f].numberOfVariables()) return "order";
      for (size_t i = 0; i < a[f].numberOfVariables(); ++i) if (a[f].variableIndex(i) != b[f].variableIndex(i)) return "variables";
      if (a[f].functionType() != b[f].functionType() || a[f].functionIndex() != b[f].functionIndex()) return "function";
      std::vector<typename GM::ValueType> x(a[f].size()), y(b[f].size());
      a[f].copyValues(x.begin()); b[f].copyValues(y.begin());
      if (x != y) return pbt::str("values of factor ", f);
   }
   return "";
}

template<class T, class OP, class I, class L>
void grid(Ctx& c) {
   typedef opengm::ExplicitFunction<T, I, L> E; typedef opengm::ConstantFunction<T, I, L> K; typedef opengm::PottsFunction<T, I, L> P; typedef opengm::AbsoluteDifferenceFunction<T, I, L> D;
   typedef typename opengm::meta::TypeListGenerator<E, K, P, D>::type TL;
   typedef opengm::GraphicalModel<T, OP, TL, opengm::DiscreteSpace<I, L> > GM;
   typedef opengm::SyntheticModelGenerator<GM> G;
   typedef typename G::Parameter Par;
   const size_t w = c.range(1, 5), h = c.range(1, 5), mx = c.range(1, 4), id = c.range(0, 100000);
   Par p((L)mx, c.flip());
   const int nf = (int)c.range(0, 3);
   std::ostringstream os; os << "width " << w << " height " << h << " states " << (p.randomNumberOfStates_ ? "<=" : "") << mx << " id " << id;
   bool pair = false;
   for (int i = 0; i < nf; ++i) {
      int t = (int)c.range(0, 4);
      size_t ord = (t == 3 || t == 4) ? 2 : size_t(c.range(1, 3));
      if (i == 0 && c.flip()) { ord = 1; if (t >= 3) t = 1; }
      int lo = (int)c.range(-5, 5), hi = lo + (int)c.range(1, 6);
      bool shared = c.flip();
      std::vector<T> par;
      const bool given = c.flip();
      size_t table = 1; for (size_t k = 0; k < ord; ++k) table *= mx;
      if (given) {
         if (t == 0 || t == 4) par.assign(1, T(c.range(-8, 8)) / 2);
         if (t == 3) { par.push_back(T(c.range(-8, 8)) / 2); par.push_back(T(c.range(-8, 8)) / 2); }
         // a parameter table fits only models whose variables all have the same number of labels
         if ((t == 1 || t == 2) && !p.randomNumberOfStates_) for (size_t k = 0; k < table; ++k) par.push_back(T(c.range(-8, 8)) / 2);
      }
      p.functionsType_.push_back(typename Par::FunctionTypes(t)); p.functionsOrder_.push_back((I)ord);
      p.functionsMinMax_.push_back(typename Par::MinMax(T(lo), T(hi))); p.sharedFunctions_.push_back(shared); p.functionsParameter_.push_back(par);
      os << "; type " << t << " order " << ord << " [" << lo << "," << hi << ")" << (shared ? " shared " : " ") << pbt::vec(par);
      if (ord > 1 && (ord <= w || ord <= h)) pair = true;
      c.label(pbt::str("type", t)); if (ord == 3) c.label("order3"); if (shared) c.label("shared");
   }
   c.note(os.str());
   c.nontrivialIf(pair && w * h > 1);
   CHECK(p.sanityCheck(), "the parameter is sane");
   GM gm = G::buildGrid(id, (I)w, (I)h, p);
   CHECK(gm.numberOfVariables() == w * h, pbt::str("a ", w, " by ", h, " grid has ", gm.numberOfVariables(), " variables"));
   for (size_t v = 0; v < w * h; ++v) {
      const size_t k = gm.numberOfLabels(v);
      if (p.randomNumberOfStates_) CHECK(k >= 1 && k <= mx, pbt::str("variable ", v, " has ", k, " labels, at most ", mx, " requested"));
      else CHECK(k == mx, pbt::str("variable ", v, " has ", k, " labels, ", mx, " requested"));
   }
   // the factors: one block per entry, in any order within the block
   size_t f = 0;
   for (int i = 0; i < nf; ++i) {
      const size_t o = p.functionsOrder_[i];
      std::multiset<V> want, got;
      for (size_t y = 0; y < h; ++y) for (size_t x = 0; x < w; ++x) {
         V vs;
         if (x + o <= w) { vs.clear(); for (size_t k = 0; k < o; ++k) vs.push_back(x + k + y * w); want.insert(vs); }
         if (o > 1 && y + o <= h) { vs.clear(); for (size_t k = 0; k < o; ++k) vs.push_back(x + (y + k) * w); want.insert(vs); }
      }
      const size_t n = want.size();
      CHECK(gm.numberOfFactors() >= f + n, pbt::str("entry ", i, " of order ", o, " has too few factors"));
      std::map<V, std::pair<size_t, size_t> > fn; std::set<std::pair<size_t, size_t> > ids;
      const T lo = p.functionsMinMax_[i].first, hi = p.functionsMinMax_[i].second;
      const std::vector<T>& par = p.functionsParameter_[i];
      for (size_t e = f + n; f < e; ++f) {
         V vs; for (size_t k = 0; k < gm[f].numberOfVariables(); ++k) vs.push_back(gm[f].variableIndex(k));
         got.insert(vs);
         V sh; for (size_t k = 0; k < vs.size(); ++k) { CHECK(gm[f].numberOfLabels(k) == gm.numberOfLabels(vs[k]), "shape"); sh.push_back(gm[f].numberOfLabels(k)); }
         const std::pair<size_t, size_t> fi(gm[f].functionType(), gm[f].functionIndex());
         if (p.sharedFunctions_[i]) { if (!fn.count(sh)) { fn[sh] = fi; CHECK(ids.insert(fi).second, "functions of different shapes are different"); } CHECK(fn[sh] == fi, pbt::str("entry ", i, " is shared and factors of equal shape have different functions")); }
         else CHECK(ids.insert(fi).second, pbt::str("entry ", i, " is not shared and two factors have the same function"));
         std::vector<T> val(gm[f].size()); gm[f].copyValues(val.begin());
         const int t = p.functionsType_[i];
         size_t idx = 0; V lab(sh.size(), 0);
         const T none = T(-12345); T eq = none, ne = none, first = val[0], unit = none;
         for (; idx < val.size(); ++idx) {
            const T x = val[idx];
            CHECK(std::isfinite(double(x)), "finite");
            if (t == 1 || t == 2) {
               if (par.size()) CHECK(x == par[idx], pbt::str("entry ", i, ": table value ", idx, " is ", x, " instead of ", par[idx]));
               else { CHECK(x >= lo && x < hi, pbt::str("entry ", i, ": ", x, " is outside [", lo, ",", hi, ")")); if (t == 2) CHECK(x == std::floor(double(x)), "an integer"); }
            }
            if (t == 0) { if (par.size()) CHECK(x == par[0], "constant"); else CHECK(x == first && x >= lo && x < hi, "a constant inside the range"); }
            if (t == 3) {
               T& r = lab[0] == lab[1] ? eq : ne;
               if (r == none) r = x; CHECK(r == x, "Potts: one value for equal and one for different labels");
               if (par.size()) CHECK(x == par[lab[0] == lab[1] ? 0 : 1], pbt::str("Potts value ", x)); else CHECK(x >= lo && x < hi, "Potts values inside the range");
            }
            if (t == 4) {
               const long d = std::labs(long(lab[0]) - long(lab[1]));
               if (d == 0) CHECK(x == 0, "L1 of equal labels is zero");
               else {
                  const T u = x / T(d);
                  if (par.size()) CHECK(std::fabs(double(u - par[0])) < 1e-4, pbt::str("L1: slope ", u, " instead of ", par[0]));
                  else CHECK(u >= lo - 1e-4 && u < hi + 1e-4, "L1: slope in the range");
                  if (unit == none) unit = u; CHECK(std::fabs(double(u - unit)) < 1e-4, "L1: one slope");
               }
            }
            for (size_t k = 0; k < lab.size(); ++k) { if (++lab[k] < sh[k]) break; lab[k] = 0; }
         }
      }
      CHECK(got == want, pbt::str("entry ", i, " of order ", o, ": the factors are not the rows and columns of the grid"));
   }
   CHECK(f == gm.numberOfFactors(), pbt::str("factors nobody asked for: ", gm.numberOfFactors() - f));
   rand();
   GM again = G::buildGrid(id, (I)w, (I)h, p);
   const std::string d = same(gm, again);
   CHECK(d.empty(), "the same id gives another model: " + d);
   if (nf && p.functionsType_[0] == Par::URANDOM && p.functionsParameter_[0].empty() && (p.functionsOrder_[0] <= w || p.functionsOrder_[0] <= h) && mx > 1 && !p.randomNumberOfStates_) {
      GM other = G::buildGrid(id + 1, (I)w, (I)h, p);
      CHECK(!same(gm, other).empty(), "different ids give the same model");
   }
}
PROP(grid_double, 2500, 60000) { grid<double, opengm::Adder, size_t, size_t>(c); }
PROP(grid_float_narrow, 2500, 60000) { grid<float, opengm::Multiplier, unsigned int, unsigned short>(c); }
