#define FIGMODE 1
#include "fig/moving.inc"
