#include "gen_model.hxx"
#include <opengm/graphicalmodel/graphicalmodel_manipulator.hxx>
using namespace gen;
// long chains and combs: the reduction must not depend on the size of the model
PROP(large_models, 3, 30) {
   typedef SumGMs::Expl GM; size_t n = 20000 + 1000 * c.upTo(180), fixedEvery = c.upTo(1) ? 0 : 1000 + c.upTo(30000); bool comb = c.flip(0.5); c.note(pbt::str("variables ", n, " fix every ", fixedEvery, comb ? " comb" : " chain")); c.nontrivial();
   std::vector<size_t> labels(n, 2); GM gm(GM::SpaceType(labels.begin(), labels.end())); size_t sh[] = {2, 2}; Types<double>::Explicit f(sh, sh + 2, 0.0); f(0, 1) = 1; f(1, 0) = 2; auto id = gm.addFunction(f);
   for (size_t i = 1; i < n; ++i) { size_t v[] = {comb && i % 2 == 0 ? i - 2 : i - 1, i}; gm.addFactor(id, v, v + 2); }
   opengm::GraphicalModelManipulator<GM> man(gm); std::vector<bool> fx(n, false); if (fixedEvery) for (size_t i = fixedEvery; i < n; i += fixedEvery) { man.fixVariable(i, 1); fx[i] = true; }
   man.lock(); man.buildModifiedSubModels(); size_t want = 0; // components: a variable starts one iff its edge to the predecessor is absent or leads to a fixed variable
   for (size_t i = 0; i < n; ++i) if (!fx[i]) { size_t p = i == 0 ? 0 : comb && i % 2 == 0 ? i - 2 : i - 1; if (i == 0 || fx[p]) ++want; }
   CHECK_EQ(man.numberOfSubmodels(), want, "independent sub-models");
   std::vector<std::vector<size_t> > sub(want); size_t total = 0; double e = 0; for (size_t s = 0; s < want; ++s) { sub[s].assign(man.getModifiedSubModel(s).numberOfVariables(), 0); total += sub[s].size(); for (size_t k = 0; k < sub[s].size(); ++k) sub[s][k] = (k * 7 + s) % 3 == 0; std::vector<size_t> l = sub[s]; l.push_back(0); e += man.getModifiedSubModel(s).evaluate(l.begin()); }
   size_t nf = 0; for (size_t i = 0; i < n; ++i) nf += !fx[i]; CHECK_EQ(total, nf, "free variables"); std::vector<size_t> full; man.modifiedSubStates2OriginalState(sub, full); CHECK_NEAR(gm.evaluate(full.begin()), e, 1e-9, "energy");
}
