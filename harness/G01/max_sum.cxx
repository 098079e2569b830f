#include "manip.h"
PROP(history_max_sum, 5000, 200000) { history<SumGMs::All, opengm::Maximizer>(c, manOpt(c, false, 4), false, true); }
PROP(pairwise_max_sum, 4000, 150000) { history<SumGMs::All, opengm::Maximizer>(c, manOpt(c, false, 2), false, true); }
