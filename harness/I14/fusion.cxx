#define ZOO_I14
#include "zoo/fusion.hxx"
