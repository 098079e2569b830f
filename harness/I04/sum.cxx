#include "move.hxx"
PROP(history_sum, 6000, 300000) { if (c.flip()) history<SumGMs, opengm::Minimizer>(c, false, false); else history<SumGMs, opengm::Maximizer>(c, false, true); }
