// FLAGS: HDF5
#include "arrays.h"
PROP(integral_small, 3000, 100000) { switch (c.upTo(4)) { case 0: Run<unsigned char>(c).run(); break; case 1: Run<signed char>(c).run(); break; case 2: Run<char>(c).run(); break; case 3: Run<short>(c).run(); break; default: Run<unsigned short>(c).run(); } }
