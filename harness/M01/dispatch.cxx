// M01: models of 1 to 20 function types
#include "dispatch.hxx"
PROP(types_1, 1500, 30000) { model<1>(c); }
PROP(types_2, 1500, 30000) { model<2>(c); }
PROP(types_3, 1500, 30000) { model<3>(c); }
