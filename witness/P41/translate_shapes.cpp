//@ flags -fno-builtin
#define FIGMODE 1
#include "fig/shapes.inc"
