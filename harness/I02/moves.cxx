#define ZOO_I02
#include "zoo/moves.hxx"
