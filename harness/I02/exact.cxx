#define ZOO_I02
#include "zoo/exact.hxx"
