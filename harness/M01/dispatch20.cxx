#include "dispatch.hxx"
PROP(types_20, 4000, 80000) { model<20>(c); }
PROP(types_9, 3000, 60000) { model<9>(c); }
