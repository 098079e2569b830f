#include "mp.hxx"
#include <opengm/inference/messagepassing/messagepassing_trbp.hxx>
PROP(trbp_fixed_point, 1200, 30000) { SEMIRINGS(loopy, opengm::TrbpUpdateRules, true) }
