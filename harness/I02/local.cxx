#define ZOO_I02
#include "zoo/local.hxx"
