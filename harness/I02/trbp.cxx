#define ZOO_I02
#define MP_TRBP
#include "zoo/mp.hxx"
