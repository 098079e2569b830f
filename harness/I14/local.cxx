#define ZOO_I14
#include "zoo/local.hxx"
