#define ZOO_I14
#define MP_TRBP
#include "zoo/mp.hxx"
