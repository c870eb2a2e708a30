#define FIGMODE 0
#include "fig/moving.inc"
