#define ZOO_I14
#define DUAL_TRWS
#include "zoo/dual.hxx"
