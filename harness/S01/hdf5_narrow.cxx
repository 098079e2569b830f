// FLAGS: HDF5
#include "hdf5.h"
typedef GMs<float, opengm::Adder, unsigned, unsigned char> N;
PROP(narrow, 1200, 30000) {
   Opt o = opts(c); bool large = c.flip(0.1); if (large) { o.minVars = 1; o.maxVars = 2; o.maxLabels = 250; o.maxConfigs = 70000; o.maxFactors = 2; o.kinds = { EXPL, POTTS, SPARSE, CONSTANT }; } Model b, m = genModel(c, o); bool u = c.flip(0.3); if (u) b = genModel(c, opts(c)); c.labelIf(large, "large label counts");
   switch (c.upTo(2)) { case 0: hdf5Trip<N::All, N::All>(c, m, u ? &b : 0, 1e-4); break; case 1: hdf5Trip<N::All, N::Permuted>(c, m, u ? &b : 0, 1e-4); break; default: c.label("other value type"); if (c.flip()) hdf5Trip<N::All, SumGMs::All>(c, m, u ? &b : 0, 1e-4); else hdf5Trip<SumGMs::All, N::All>(c, m, u ? &b : 0, 1e-4); }
}
