#include "astar.hxx"
PROP(astar_product, 2000, 60000) { if (c.flip()) astar<opengm::Multiplier, opengm::Minimizer>(c, true, false); else astar<opengm::Multiplier, opengm::Maximizer>(c, true, true); }
