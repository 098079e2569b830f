#include "mp.hxx"
#include <opengm/inference/messagepassing/messagepassing_bp.hxx>
PROP(bp_fixed_point, 1200, 30000) { SEMIRINGS(loopy, opengm::BeliefPropagationUpdateRules, false) }
