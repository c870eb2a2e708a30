// A query and its parameters. References are non-const on purpose: a library function that starts to take its argument by
// non-const reference still compiles, and is judged by whether it writes.
#pragma once
#include "geo.hpp"
#define Q(R, name, ...) extern "C" __attribute__((noinline)) R q_##name(__VA_ARGS__)
