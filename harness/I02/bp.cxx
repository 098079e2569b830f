#define ZOO_I02
#include "zoo/mp.hxx"
