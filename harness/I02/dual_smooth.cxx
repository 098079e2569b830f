#define ZOO_I02
#define DUAL_SMOOTH
#include "zoo/dual.hxx"
