#define ZOO_I14
#include "zoo/exact.hxx"
