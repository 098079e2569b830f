#define ZOO_I14
#define DUAL_SMOOTH
#include "zoo/dual.hxx"
