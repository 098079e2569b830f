#include "expr.h"
PROP(int_view_double_scalar, 24000, 450000) { forms<int, int, double, double>(c); }
PROP(mixed_views, 24000, 450000) { forms<float, double, int, double>(c); }
