// FLAGS: HDF5
#include "arrays.h"
PROP(floating, 3000, 100000) { if (c.flip()) Run<float>(c).run(); else Run<double>(c).run(); }
