#include "graphcut_cases.hxx"
PROP(graph_cut_kolmogorov, 3000, 80000) { cutT<opengm::KOLMOGOROV>(c); }
PROP(graph_cut_push_relabel, 3000, 80000) { cutT<opengm::PUSH_RELABEL>(c); }
PROP(graph_cut_edmonds_karp, 3000, 80000) { cutT<opengm::EDMONDS_KARP>(c); }
