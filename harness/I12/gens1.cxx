#include "gens.hxx"
PROP(fusion_expansion, 800, 25000) { fusion<opengm::proposal_gen::AlphaExpansionGen, true, false>(c); }
PROP(fusion_swap, 800, 25000) { fusion<opengm::proposal_gen::AlphaBetaSwapGen, false, true>(c); }
PROP(fusion_up_down, 800, 25000) { fusion<opengm::proposal_gen::UpDownGen, false, false>(c); }
