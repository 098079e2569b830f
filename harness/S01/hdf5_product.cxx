// FLAGS: HDF5
#include "hdf5.h"
PROP(product, 1200, 30000) { Model m = genModel(c, opts(c)); hdf5Trip<MulGMs::All, MulGMs::All>(c, m, 0); }
// the file only announces function types that the reader does not know, as long as no function uses them
PROP(explicit_only, 1500, 40000) {
   Opt o = opts(c); o.kinds = { EXPL }; Model b, m = genModel(c, o); bool u = c.flip(0.3); if (u) b = genModel(c, o);
   switch (c.upTo(2)) { case 0: hdf5Trip<MulGMs::All, MulGMs::Expl>(c, m, u ? &b : 0); break; case 1: hdf5Trip<MulGMs::Expl, MulGMs::All>(c, m, u ? &b : 0); break; default: hdf5Trip<MulGMs::Expl, MulGMs::Expl>(c, m, u ? &b : 0); }
}
