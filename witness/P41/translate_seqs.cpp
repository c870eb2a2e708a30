//@ flags -fno-builtin
#define FIGMODE 1
#include "fig/seqs.inc"
