#include "history.h"
PROP(operators_int_narrow, 3000, 300000) { history<int, unsigned, unsigned char, 1>(c); }
