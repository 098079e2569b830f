#include "gen_model.hxx"
#include <opengm/functions/scaled_view.hxx>
#include <opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx>
using namespace gen;
using pbt::Ctx;
typedef SumGMs::Expl GM;
typedef opengm::GraphicalModelDecomposition D;
typedef opengm::GraphicalModelDecomposer<GM> Dec;
typedef opengm::meta::TypeListGenerator<opengm::ScaledViewFunction<GM>, opengm::ConstantFunction<double> >::type SubTypes;
typedef opengm::GraphicalModel<double, opengm::Adder, SubTypes, opengm::DiscreteSpace<> > SubGM;

struct Want { bool coverVars = true, coverFactors = true, acyclic = false, sorted = true; };
// Everything an algorithm that works on the sub-models relies on.
static void checkDecomposition(Ctx& c, const Model& m, const GM& gm, const D& d, const Want& w, const char* what) {
   size_t S = d.numberOfSubModels(); const std::vector<D::SubFactorListType>& fl = d.getFactorLists(); const std::vector<D::SubVariableListType>& vl = d.getVariableLists();
   CHECK_EQ(fl.size(), m.factors.size(), what << ": factor lists"); CHECK_EQ(vl.size(), m.n(), what << ": variable lists");
   std::vector<Vec> real(S), seenFactorId(S); for (size_t s = 0; s < S; ++s) { real[s].assign(d.numberOfSubVariables(s), (size_t)-1); seenFactorId[s].assign(d.numberOfSubFactors(s), 0); }
   for (size_t v = 0; v < m.n(); ++v) { CHECK(!w.coverVars || !vl[v].empty(), what << ": variable " << v << " is in no sub-model"); for (auto& x : vl[v]) { CHECK(x.subModelId_ < S && x.subVariableId_ < real[x.subModelId_].size(), what << ": sub-variable out of range"); CHECK_EQ(real[x.subModelId_][x.subVariableId_], (size_t)-1, what << ": sub-variable used twice"); real[x.subModelId_][x.subVariableId_] = v; } }
   for (size_t s = 0; s < S; ++s) for (size_t i = 0; i < real[s].size(); ++i) { CHECK(real[s][i] != (size_t)-1, what << ": sub-variable without variable"); if (w.sorted && i) CHECK(real[s][i - 1] <= real[s][i], what << ": sub-variables not in the order of the model"); }
   auto checkOne = [&](const D::SubFactor& x, const Vec& vars) {
      CHECK(x.subModelId_ < S, what << ": sub-model of a factor"); CHECK_EQ(x.subIndices_.size(), vars.size(), what << ": arity"); CHECK(x.subFactorId_ < seenFactorId[x.subModelId_].size(), what << ": sub-factor number " << x.subFactorId_); CHECK_EQ(seenFactorId[x.subModelId_][x.subFactorId_]++, (size_t)0, what << ": sub-factor number used twice");
      for (size_t k = 0; k < vars.size(); ++k) { CHECK(x.subIndices_[k] < real[x.subModelId_].size(), what << ": scope out of range"); CHECK_EQ(real[x.subModelId_][x.subIndices_[k]], vars[k], what << ": sub-factor on the wrong variable"); } };
   for (size_t f = 0; f < fl.size(); ++f) { CHECK(!w.coverFactors || !fl[f].empty(), what << ": factor " << f << " is in no sub-model"); for (auto& x : fl[f]) checkOne(x, m.factors[f].vars); }
   for (auto& e : d.getEmptyFactorLists()) for (auto& x : e.second) checkOne(x, e.first);
   for (size_t s = 0; s < S; ++s) for (size_t n : seenFactorId[s]) CHECK_EQ(n, (size_t)1, what << ": sub-factor numbers");
   // the sub-models themselves, every factor shared evenly (models need their variables in order)
   if (w.sorted) {
   std::vector<SubGM> sub(S); for (size_t s = 0; s < S; ++s) { Vec lab = shapeOf(m, real[s]); sub[s] = SubGM(SubGM::SpaceType(lab.begin(), lab.end())); }
   for (size_t f = 0; f < fl.size(); ++f) for (auto& x : fl[f]) sub[x.subModelId_].addFactor(sub[x.subModelId_].addFunction(opengm::ScaledViewFunction<GM>(gm, f, 1.0 / fl[f].size())), x.subIndices_.begin(), x.subIndices_.end());
   if (w.acyclic) for (size_t s = 0; s < S; ++s) CHECK(sub[s].isAcyclic(), what << ": sub-model " << s << " is not a tree");
   if (w.coverFactors) { size_t budget = 40; forAll(m.labels, [&](const Vec& x) { if (!budget) return; --budget; double e = 0; for (size_t s = 0; s < S; ++s) { Vec l; for (size_t v : real[s]) l.push_back(x[v]); l.push_back(0); e += sub[s].evaluate(l.begin()); } CHECK_NEAR(e, m.sum(x), 1e-9, what << ": sum of the sub-model energies at " << pbt::vec(x)); }); }
   }
   if (w.coverVars && w.coverFactors) CHECK(d.isValid(gm), what << ": isValid"); else { bool ok = true; for (auto& l : vl) if (l.empty()) ok = false; for (auto& l : fl) if (l.empty()) ok = false; if (!ok) { bool v = false; try { v = d.isValid(gm); } catch (std::exception&) {} CHECK(!v, what << ": an incomplete decomposition is called valid"); } }
   if (S > 1) c.nontrivial();
}
static void completed(Ctx& c, const Model& m, const GM& gm, D d, Want w, const char* what) {
   D before = d; d.complete(); checkDecomposition(c, m, gm, d, w, what);
   // afterwards every copy of a variable that occurs more than once carries a unary factor; nothing was removed
   std::set<std::pair<size_t, size_t> > un; for (auto& l : d.getFactorLists()) for (auto& x : l) if (x.subIndices_.size() == 1) un.insert({x.subModelId_, x.subIndices_[0]}); for (auto& e : d.getEmptyFactorLists()) for (auto& x : e.second) { CHECK_EQ(e.first.size(), (size_t)1, "added factors are unary"); un.insert({x.subModelId_, x.subIndices_[0]}); }
   for (size_t v = 0; v < m.n(); ++v) if (d.getVariableLists()[v].size() > 1) for (auto& x : d.getVariableLists()[v]) CHECK(un.count({x.subModelId_, x.subVariableId_}), what << ": copy of variable " << v << " without unary factor after completion");
   for (size_t f = 0; f < m.factors.size(); ++f) { auto a = before.getFactorLists()[f].begin(); auto b = d.getFactorLists()[f].begin(); CHECK(before.getFactorLists()[f].size() <= d.getFactorLists()[f].size(), "factor lost"); for (; a != before.getFactorLists()[f].end(); ++a, ++b) CHECK(a->subModelId_ == b->subModelId_ && a->subIndices_ == b->subIndices_ && a->subFactorId_ == b->subFactorId_, "sub-factor changed by completion"); }
   for (size_t v = 0; v < m.n(); ++v) CHECK_EQ(before.getVariableLists()[v].size(), d.getVariableLists()[v].size(), "completion adds no variables");
   if (c.flip(0.3)) { d.reorder(); w.sorted = true; checkDecomposition(c, m, gm, d, w, what); }
}
static Model gen1(Ctx& c, long order) { Opt o; o.minVars = 1; o.maxVars = 7; o.maxLabels = 3; o.maxOrder = order; o.maxFactors = 10; o.kinds = {EXPL}; o.maxConfigs = 600; if (c.flip(0.2)) o.tree = true; if (c.flip(0.3)) o.unaryAll = true; Model m = genModel(c, o); c.note(m.str()); return m; }
static std::vector<std::set<size_t> > cover(Ctx& c, size_t n) { std::vector<std::set<size_t> > b(c.range(1, 4)); for (size_t v = 0; v < n; ++v) { size_t k = 1 + c.flip(0.3); while (k--) b[c.upTo(b.size() - 1)].insert(v); } std::string s; for (auto& x : b) s += pbt::vec(Vec(x.begin(), x.end())); c.note("blocks " + s); return b; }

PROP(tree, 4000, 100000) { Model m = gen1(c, 4); GM gm = buildExplicit<GM>(m); Want w; w.acyclic = true; D d = Dec().decomposeIntoTree(gm); CHECK_EQ(d.numberOfSubModels(), (size_t)1, "one tree"); for (auto& l : d.getFactorLists()) CHECK_EQ(l.size(), (size_t)1, "every factor once"); size_t dup = 0; for (auto& l : d.getVariableLists()) dup += l.size() - 1; c.nontrivialIf(dup); checkDecomposition(c, m, gm, d, w, "tree"); completed(c, m, gm, d, w, "completed tree"); }
PROP(spanning_trees, 4000, 100000) { Model m = gen1(c, 4); GM gm = buildExplicit<GM>(m); Want w; w.acyclic = true; D d = Dec().decomposeIntoSpanningTrees(gm); for (size_t s = 0; s < d.numberOfSubModels(); ++s) CHECK_EQ(d.numberOfSubVariables(s), m.n(), "spanning"); checkDecomposition(c, m, gm, d, w, "spanning trees"); completed(c, m, gm, d, w, "completed spanning trees"); }
PROP(k_fans, 4000, 100000) { Model m = gen1(c, 2); GM gm = buildExplicit<GM>(m); Want w; size_t k = c.range(1, m.n() + 1); c.note(pbt::str("k=", k)); D d = c.flip() ? Dec().decomposeIntoKFans(gm, k) : Dec().decomposeIntoKFans(gm, cover(c, m.n())); checkDecomposition(c, m, gm, d, w, "k-fans"); completed(c, m, gm, d, w, "completed k-fans"); }
PROP(closed_blocks, 4000, 100000) { Model m = gen1(c, 4); GM gm = buildExplicit<GM>(m); Want w; size_t k = c.range(1, m.n() + 2); c.note(pbt::str("k=", k)); D d;
   if (c.flip()) { d = Dec().decomposeIntoClosedBlocks(gm, k); CHECK_EQ(d.numberOfSubModels(), k, "number of blocks"); } else { auto b = cover(c, m.n()); d = Dec().decomposeIntoClosedBlocks(gm, b); for (size_t s = 0; s < b.size(); ++s) { std::set<size_t> cl = b[s]; for (size_t f = 0; f < m.factors.size(); ++f) { bool in = m.factors[f].vars.empty(); for (size_t v : m.factors[f].vars) in = in || b[s].count(v); if (in) cl.insert(m.factors[f].vars.begin(), m.factors[f].vars.end()); size_t n = 0; for (auto& x : d.getFactorLists()[f]) n += x.subModelId_ == s; CHECK_EQ(n, (size_t)in, "factor " << f << " in closed block " << s); } CHECK_EQ(d.numberOfSubVariables(s), cl.size(), "closure of block " << s); } }
   checkDecomposition(c, m, gm, d, w, "closed blocks"); completed(c, m, gm, d, w, "completed closed blocks"); }
PROP(open_blocks, 4000, 100000) { Model m = gen1(c, 3); GM gm = buildExplicit<GM>(m); Want w; w.coverFactors = false; auto b = cover(c, m.n()); D d = Dec().decomposeIntoOpenBlocks(gm, b); bool all = true;
   for (size_t s = 0; s < b.size(); ++s) { CHECK_EQ(d.numberOfSubVariables(s), b[s].size(), "variables of open block"); for (size_t f = 0; f < m.factors.size(); ++f) { bool in = true; for (size_t v : m.factors[f].vars) in = in && b[s].count(v); size_t n = 0; for (auto& x : d.getFactorLists()[f]) n += x.subModelId_ == s; CHECK_EQ(n, (size_t)in, "factor " << f << " in open block " << s); } }
   for (auto& l : d.getFactorLists()) all = all && !l.empty(); w.coverFactors = all; c.labelIf(all, "all factors inside"); checkDecomposition(c, m, gm, d, w, "open blocks"); completed(c, m, gm, d, w, "completed open blocks"); }
PROP(manual_lists, 3000, 80000) { Model m = gen1(c, 4); GM gm = buildExplicit<GM>(m); std::vector<Vec> sub(c.range(1, 4)); bool total = c.flip(0.7);
   for (size_t f = 0; f < m.factors.size(); ++f) { if (!total && c.flip(0.3)) continue; Vec s = c.subset(sub.size(), c.range(1, sub.size())); for (size_t k : s) sub[k].push_back(f); }
   std::string s; for (auto& x : sub) { Vec p = c.perm(x.size()), y; for (size_t i : p) y.push_back(x[i]); x = y; s += pbt::vec(x); } c.note("factors " + s);
   D d = Dec().decomposeManual(gm, sub); Want w; w.coverVars = w.coverFactors = true; for (auto& l : d.getFactorLists()) if (l.empty()) w.coverFactors = false; std::vector<bool> cov(m.n(), false); for (auto& f : sub) for (size_t i : f) for (size_t v : m.factors[i].vars) cov[v] = true; for (bool b : cov) w.coverVars = w.coverVars && b;
   CHECK_EQ(d.numberOfSubModels(), sub.size(), "sub-models"); for (size_t k = 0; k < sub.size(); ++k) { std::set<size_t> vs; for (size_t f : sub[k]) vs.insert(m.factors[f].vars.begin(), m.factors[f].vars.end()); CHECK_EQ(d.numberOfSubVariables(k), vs.size(), "variables of a manual sub-model"); CHECK_EQ(d.numberOfSubFactors(k), sub[k].size(), "factors of a manual sub-model"); }
   for (size_t f = 0; f < m.factors.size(); ++f) { size_t n = 0; for (auto& x : sub) n += std::count(x.begin(), x.end(), f); CHECK_EQ(d.getFactorLists()[f].size(), n, "uses of factor " << f); }
   checkDecomposition(c, m, gm, d, w, "manual"); completed(c, m, gm, d, w, "completed manual"); }
// decompositions assembled call by call, against a plain list of what was added
PROP(assembled, 4000, 100000) {
   Model m = gen1(c, 3); GM gm = buildExplicit<GM>(m); size_t S0 = c.upTo(2), S = S0; D d(m.n(), m.factors.size(), S0); std::vector<Vec> real(S); std::vector<size_t> nf(S, 0); size_t steps = c.range(1, 30); Want w; w.sorted = false; std::vector<Vec> uses(m.factors.size());
   for (size_t i = 0; i < steps; ++i) switch (c.weighted({1, 4, 4, 1, 1})) {
      case 0: { size_t s = d.addSubModel(); CHECK_EQ(s, S, "number of the new sub-model"); ++S; real.push_back(Vec()); nf.push_back(0); c.note("add sub-model"); break; }
      case 1: { if (!S) break; size_t s = c.upTo(S - 1), v = c.upTo(m.n() - 1); c.note(pbt::str("add variable ", v, " to ", s)); CHECK_EQ(d.addSubVariable(s, v), real[s].size(), "number of the new sub-variable"); real[s].push_back(v); break; }
      case 2: { if (!S || m.factors.empty()) break; size_t s = c.upTo(S - 1), f = c.upTo(m.factors.size() - 1); Vec idx; for (size_t v : m.factors[f].vars) { Vec cand; for (size_t k = 0; k < real[s].size(); ++k) if (real[s][k] == v) cand.push_back(k); if (cand.empty()) { CHECK_EQ(d.addSubVariable(s, v), real[s].size(), "number of the new sub-variable"); cand.push_back(real[s].size()); real[s].push_back(v); } idx.push_back(cand[c.upTo(cand.size() - 1)]); } c.note(pbt::str("add factor ", f, " to ", s, " on ", pbt::vec(idx))); CHECK_EQ(d.addSubFactor(s, f, idx), nf[s], "number of the new sub-factor"); ++nf[s]; uses[f].push_back(s); break; }
      case 3: { if (!S) break; size_t s = c.upTo(S - 1); if (real[s].empty()) break; size_t k = c.upTo(real[s].size() - 1); size_t v = real[s][k]; bool has = false; for (auto& f : m.factors) has = has || f.vars == Vec(1, v); if (has) break; c.note(pbt::str("add empty factor on variable ", v, " to ", s)); CHECK_EQ(d.addSubFactor(s, Vec(1, v), Vec(1, k)), nf[s], "number of the new sub-factor"); ++nf[s]; break; }
      default: { d.reorder(); c.note("reorder"); for (auto& r : real) std::sort(r.begin(), r.end()); } }
   CHECK_EQ(d.numberOfSubModels(), S, "sub-models"); for (size_t s = 0; s < S; ++s) { CHECK_EQ(d.numberOfSubVariables(s), real[s].size(), "sub-variables"); CHECK_EQ(d.numberOfSubFactors(s), nf[s], "sub-factors"); }
   for (size_t f = 0; f < uses.size(); ++f) { Vec g; for (auto& x : d.getFactorLists()[f]) g.push_back(x.subModelId_); CHECK(g == uses[f], "sub-models of factor " << f); }
   w.coverFactors = w.coverVars = true; for (auto& u : uses) if (u.empty()) w.coverFactors = false; for (auto& l : d.getVariableLists()) if (l.empty()) w.coverVars = false;
   checkDecomposition(c, m, gm, d, w, "assembled"); completed(c, m, gm, d, w, "completed assembled"); d.reorder(); w.sorted = true; checkDecomposition(c, m, gm, d, w, "reordered assembled");
}
