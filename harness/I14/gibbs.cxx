#define ZOO_I14
#include "zoo/gibbs.hxx"
