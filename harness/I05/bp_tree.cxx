#include "mp.hxx"
#include <opengm/inference/messagepassing/messagepassing_bp.hxx>
PROP(bp_tree, 2500, 80000) { SEMIRINGS(tree, opengm::BeliefPropagationUpdateRules, false) }
