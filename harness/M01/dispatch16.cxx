#include "dispatch.hxx"
PROP(types_16, 3000, 60000) { model<16>(c); }
PROP(types_17, 3000, 60000) { model<17>(c); }
