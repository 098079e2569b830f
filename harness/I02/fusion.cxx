#define ZOO_I02
#include "zoo/fusion.hxx"
