#include "dd.hxx"
PROP(dd_trees_max, 800, 30000) { dual<opengm::DDDualVariableBlock, marray::Marray<double>, opengm::Maximizer>(c, true); }
PROP(dd_blocks_max, 800, 30000) { dual<opengm::DDDualVariableBlock, marray::Marray<double>, opengm::Maximizer>(c, false); }
