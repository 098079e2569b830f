#include "gens.hxx"
PROP(fusion_random, 600, 20000) { fusion<opengm::proposal_gen::RandomGen, false, false>(c); }
PROP(fusion_random2, 400, 10000) { fusion<opengm::proposal_gen::Random2Gen, false, false>(c); }
PROP(fusion_random_flip, 400, 10000) { fusion<opengm::proposal_gen::RandomLFGen, false, false>(c); }
PROP(fusion_weighted, 600, 20000) { fusion<opengm::proposal_gen::NonUniformRandomGen, false, false>(c); }
