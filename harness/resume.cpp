// the real src/dnl/resume.cpp, verbatim, plus accessors
#include "src/dnl/resume.cpp"
#include "flat.cpp"
