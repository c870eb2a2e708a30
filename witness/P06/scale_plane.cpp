#define FIGMODE 0
#include "fig/plane.inc"
