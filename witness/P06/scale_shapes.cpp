//@ flags -fno-builtin
#define FIGMODE 0
#include "fig/shapes.inc"
