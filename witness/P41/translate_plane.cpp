#define FIGMODE 1
#include "fig/plane.inc"
