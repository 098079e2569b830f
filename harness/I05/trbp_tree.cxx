#include "mp.hxx"
#include <opengm/inference/messagepassing/messagepassing_trbp.hxx>
PROP(trbp_tree, 2500, 80000) { SEMIRINGS(tree, opengm::TrbpUpdateRules, true) }
