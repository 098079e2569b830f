// I06: GraphCut builds the cut problem of a binary submodular model; its labeling has the minimum energy
#include "graphcut_cases.hxx"
PROP(model_cut_kolmogorov, 2000, 60000) { cutT<opengm::KOLMOGOROV>(c); }
PROP(model_cut_push_relabel, 2000, 60000) { cutT<opengm::PUSH_RELABEL>(c); }
PROP(model_cut_edmonds_karp, 2000, 60000) { cutT<opengm::EDMONDS_KARP>(c); }
