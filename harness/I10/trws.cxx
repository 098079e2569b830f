#include "dual.hxx"
template<class ACC> static void run(Ctx& c) {
   typedef opengm::TRWSi<GM, ACC> S; typedef typename S::Storage ST; Pairwise q; auto t = structure<ST>(c, q); auto gm = buildAll<GM>(q.m);
   typename S::Parameter p(c.pick({1, 3, 100}), t, 1e-9); p.fastComputations_ = c.flip(); p.canonicalNormalization_ = c.flip(); S s(gm, p); Quiet quiet;
   bool inf = c.flip(0.9); if (inf) s.infer(); reparam(c, s, q, inf);
}
PROP(trws, 1000, 30000) { run<opengm::Minimizer>(c); }
PROP(trws_max, 500, 15000) { run<opengm::Maximizer>(c); }
// the storage of sub-problems alone
PROP(storage, 1500, 40000) {
   typedef opengm::trws_base::DecompositionStorage<GM> ST; Pairwise q; auto t = structure<ST>(c, q); auto gm = buildAll<GM>(q.m); const Model& m = q.m;
   ST st(gm, t); CHECK(&st.masterModel() == &gm && st.getStructureType() == t, "storage"); CHECK_EQ((size_t)st.numberOfSharedVariables(), m.n(), "variables");
   // every pairwise factor in exactly one sub-problem, every variable where the list says
   std::vector<int> seen(m.factors.size()); std::vector<size_t> copies(m.n());
   for (size_t i = 0; i < (size_t)st.numberOfModels(); ++i) { auto& sub = st.subModel(i); CHECK_EQ((size_t)st.size(i), (size_t)sub.size(), "size"); for (size_t k = 0; k < (size_t)sub.size(); ++k) { size_t v = sub.varIndex(k); ++copies[v]; CHECK_EQ(sub.unaryFactors(k).size(), m.labels[v], "unary factor"); if (k + 1 < (size_t)sub.size()) { size_t f = sub.pwForwardFactor(k), w = sub.varIndex(k + 1); ++seen[f]; bool direct = sub.pwDirection(k) == ST::SubModel::Direct; Vec vs = direct ? Vec({v, w}) : Vec({w, v}); CHECK(m.factors[f].vars == vs, "factor between neighbours of a chain"); } } }
   for (size_t f = 0; f < m.factors.size(); ++f) if (m.factors[f].vars.size() == 2) CHECK_EQ(seen[f], 1, "sub-problems with factor " << f);
   for (size_t v = 0; v < m.n(); ++v) { CHECK_EQ(copies[v], (size_t)st.getSubVariableList(v).size(), "copies of variable " << v); for (auto& e : st.getSubVariableList(v)) CHECK_EQ((size_t)st.subModel(e.subModelId_).varIndex(e.subVariableId_), v, "list of copies"); }
   sameEnergy(c, st, m, 1e-9 * (1 + m.factors.size()) * 40, "new");
   size_t size = 0; for (size_t v = 0; v < m.n(); ++v) size += (copies[v] - 1) * m.labels[v];
   CHECK_EQ((size_t)st.getDDVectorSize(), size, "size of the dual vector");
   ST::DDVectorType sum(size, 0.0), got(3, 1.0);
   for (size_t k = c.upTo(3); k--;) { ST::DDVectorType d(size); for (auto& x : d) x = c.sym(20) / 4.0; for (size_t i = 0; i < size; ++i) sum[i] += d[i]; st.addDDvector(d); }
   sameEnergy(c, st, m, 1e-9 * (1 + m.factors.size()) * 200, "after addDDvector");
   st.getDDVector(&got); CHECK_EQ(got.size(), size, "dual vector"); for (size_t i = 0; i < size; ++i) CHECK_NEAR((double)got[i], sum[i], 1e-9, "dual " << i);
   ST st2(gm, t, &got); for (size_t i = 0; i < (size_t)st.numberOfModels(); ++i) for (size_t k = 0; k < (size_t)st.size(i); ++k) for (size_t l = 0; l < st.subModel(i).unaryFactors(k).size(); ++l) CHECK_NEAR((double)st2.subModel(i).unaryFactors(k)[l], (double)st.subModel(i).unaryFactors(k)[l], 1e-9, "storage made from the dual vector");
   for (int dl = -1; dl <= 1; dl += 2) { if (dl < 0 && !size) continue; ST::DDVectorType bad(size + dl); bool thrown = false; try { st.addDDvector(bad); } catch (std::runtime_error&) { thrown = true; } CHECK(thrown, "dual vector of the wrong size accepted"); }
   c.nontrivialIf(size > 0 && q.edges > 0);
}
