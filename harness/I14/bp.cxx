#define ZOO_I14
#include "zoo/mp.hxx"
