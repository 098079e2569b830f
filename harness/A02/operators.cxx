#include "history.h"
PROP(operators_double, 5000, 300000) { history<double, size_t, size_t, 1>(c); }
