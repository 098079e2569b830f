#include "manip.h"
PROP(history_min_product, 5000, 200000) { history<MulGMs::All, opengm::Minimizer>(c, manOpt(c, true, 4), true, false); }
PROP(pairwise_min_product, 4000, 150000) { history<MulGMs::All, opengm::Minimizer>(c, manOpt(c, true, 2), true, false); }
