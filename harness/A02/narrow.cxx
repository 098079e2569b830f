#include "history.h"
PROP(history_int_narrow, 5000, 200000) { history<int, unsigned, unsigned char, 0>(c); }
