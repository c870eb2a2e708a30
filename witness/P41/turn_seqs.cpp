//@ flags -fno-builtin
#define FIGMODE 2
#include "fig/seqs.inc"
