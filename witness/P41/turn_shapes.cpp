//@ flags -fno-builtin
#define FIGMODE 2
#include "fig/shapes.inc"
