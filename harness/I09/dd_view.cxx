#include "dd.hxx"
PROP(dd_trees_view, 800, 30000) { dual<opengm::DDDualVariableBlock2, marray::View<double, false>, opengm::Minimizer>(c, true); }
PROP(dd_blocks_view, 800, 30000) { dual<opengm::DDDualVariableBlock2, marray::View<double, false>, opengm::Minimizer>(c, false); }
