#define FIGMODE 2
#include "fig/plane.inc"
