#define ZOO_I14
#include "zoo/moves.hxx"
