#define ZOO_I02
#define DUAL_DD
#include "zoo/dual.hxx"
