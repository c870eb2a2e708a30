#define FIGMODE 2
#include "fig/moving.inc"
