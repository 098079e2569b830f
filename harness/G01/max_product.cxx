#include "manip.h"
PROP(history_max_product, 5000, 200000) { history<MulGMs::All, opengm::Maximizer>(c, manOpt(c, true, 4), true, true); }
PROP(pairwise_max_product, 4000, 150000) { history<MulGMs::All, opengm::Maximizer>(c, manOpt(c, true, 2), true, true); }
