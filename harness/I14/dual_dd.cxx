#define ZOO_I14
#define DUAL_DD
#include "zoo/dual.hxx"
