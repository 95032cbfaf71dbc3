// the real src/diffutils.cpp, verbatim, plus accessors
#include "src/diffutils.cpp"
#define NO_WRITER
#include "flat.cpp"
