// FLAGS: HDF5
#include "hdf5.h"
static const Model* used(pbt::Ctx& c, Model& b) { if (!c.flip(0.3)) return 0; b = genModel(c, opts(c)); return &b; }
PROP(sum, 2500, 60000) {
   Model b, m = genModel(c, opts(c)); const Model* u = used(c, b);
   switch (c.upTo(2)) { case 0: hdf5Trip<SumGMs::All, SumGMs::All>(c, m, u); break; case 1: hdf5Trip<SumGMs::All, SumGMs::Permuted>(c, m, u); break; default: hdf5Trip<SumGMs::Permuted, SumGMs::All>(c, m, u); }
}
