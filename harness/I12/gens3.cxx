#include "gens.hxx"
PROP(fusion_blur, 600, 15000) { fusion<opengm::proposal_gen::BlurGen, false, false>(c); }
PROP(fusion_energy_blur, 600, 15000) { fusion<opengm::proposal_gen::EnergyBlurGen, false, false>(c); }
PROP(fusion_dynamic, 600, 15000) { fusion<opengm::proposal_gen::DynamincGen, false, false>(c); }
