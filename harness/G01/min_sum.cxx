#include "manip.h"
PROP(history_min_sum, 5000, 200000) { history<SumGMs::All, opengm::Minimizer>(c, manOpt(c, false, 4), false, false); }
PROP(pairwise_min_sum, 4000, 150000) { history<SumGMs::All, opengm::Minimizer>(c, manOpt(c, false, 2), false, false); }
