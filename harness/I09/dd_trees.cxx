#include "dd.hxx"
PROP(dd_trees, 1000, 30000) { dual<opengm::DDDualVariableBlock, marray::Marray<double>, opengm::Minimizer>(c, true); }
PROP(dd_blocks, 1000, 30000) { dual<opengm::DDDualVariableBlock, marray::Marray<double>, opengm::Minimizer>(c, false); }
