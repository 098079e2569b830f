#include "history.h"
PROP(history_double, 5000, 300000) { history<double, size_t, size_t, 0>(c); }
