// FLAGS: HDF5
#include "arrays.h"
PROP(integral_large, 3000, 100000) { switch (c.upTo(5)) { case 0: Run<int>(c).run(); break; case 1: Run<unsigned>(c).run(); break; case 2: Run<long>(c).run(); break; case 3: Run<unsigned long>(c).run(); break; case 4: Run<long long>(c).run(); break; default: Run<unsigned long long>(c).run(); } }
