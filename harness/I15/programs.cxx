#include "lp.hxx"
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
PROP(min_points, 2500, 40000) { lp::Check<opengm::Minimizer>::points(c); }
PROP(min_integer, 6000, 40000) { lp::Check<opengm::Minimizer>::integer(c); }
PROP(min_relaxed, 4000, 40000) { lp::Check<opengm::Minimizer>::relaxed(c); }
PROP(max_points, 2500, 40000) { lp::Check<opengm::Maximizer>::points(c); }
PROP(max_integer, 6000, 40000) { lp::Check<opengm::Maximizer>::integer(c); }
PROP(max_relaxed, 4000, 40000) { lp::Check<opengm::Maximizer>::relaxed(c); }
