// FLAGS: HDF5
// duals survive a file
#include "pairwise.hxx"
#include <opengm/inference/auxiliary/lp_reparametrization_hdf5.hxx>
#include <unistd.h>
using namespace gen;
using pbt::Ctx;
typedef SumGMs::All GM;
struct TempFile { std::string path; TempFile() { const char* d = getenv("PBT_SCRATCH"); path = std::string(d ? d : "/tmp") + "/i10-" + std::to_string(getpid()) + ".h5"; ::unlink(path.c_str()); } ~TempFile() { ::unlink(path.c_str()); } };
PROP(saved_duals, 800, 20000) {
   typedef opengm::LPReparametrizer<GM, opengm::Minimizer> R; typedef R::RepaStorageType ST; Opt o; o.kinds = { EXPL }; Pairwise q = genPairwise(c, c.pick({ CHAIN, TREE, GRID, ANY }), true, o); Model& m = q.m; c.note(m.str()); auto gm = buildAll<GM>(m); R r(gm); ST& st = r.Reparametrization(); std::vector<std::vector<DVec> > d(m.factors.size()); size_t total = 0;
   for (size_t f = 0; f < m.factors.size(); ++f) { const Vec& vs = m.factors[f].vars; if (vs.size() < 2) continue; d[f].resize(vs.size()); for (size_t k = 0; k < vs.size(); ++k) { auto it = st.getIterators(f, k); for (; it.first != it.second; ++it.first) { double x = c.pick({ 0.0, 1.0, -1.5, 0.1, 1e-300, -1e300, 3.0, 1.0 / 3 }); *it.first = x; d[f][k].push_back(x); ++total; } } }
   if (!total) { c.label("no duals"); return; } TempFile t; std::string name = c.pick({ "repa", "a", "gm-duals" }); if (c.flip(0.3)) { R z(gm); opengm::hdf5::save(z.Reparametrization(), t.path, "old"); } opengm::hdf5::save(st, t.path, name); R r2(gm); opengm::hdf5::load(&r2.Reparametrization(), t.path, name);
   for (size_t f = 0; f < m.factors.size(); ++f) for (size_t k = 0; k < d[f].size(); ++k) CHECK(r2.Reparametrization().get(f, k) == d[f][k], "loaded duals of factor " << f << " position " << k); R::ReparametrizedGMType g1, g2; r.getReparametrizedModel(g1); r2.getReparametrizedModel(g2); CHECK_EQ(g1.numberOfFactors(), g2.numberOfFactors(), "factors");
   c.nontrivialIf(total > 2 && m.nConfigs() > 3);
}
