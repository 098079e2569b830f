#include "move.hxx"
PROP(history_product, 6000, 300000) { if (c.flip()) history<MulGMs, opengm::Minimizer>(c, true, false); else history<MulGMs, opengm::Maximizer>(c, true, true); }
