#define ZOO_I02
#define DUAL_TRWS
#include "zoo/dual.hxx"
