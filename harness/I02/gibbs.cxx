#define ZOO_I02
#include "zoo/gibbs.hxx"
