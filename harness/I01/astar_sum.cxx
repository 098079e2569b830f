#include "astar.hxx"
PROP(astar_sum, 2500, 80000) { if (c.flip()) astar<opengm::Adder, opengm::Minimizer>(c, false, false); else astar<opengm::Adder, opengm::Maximizer>(c, false, true); }
