// Shared vocabulary of the witness units.  LIB(..) forwards to the library, REF(..) is the
// independent specification, PRE(..) the domain on which they must agree.
#pragma once
#include <boost/mpl/bool.hpp>
#include <cmath>
#include <cstddef>
#include <array>
#include <vector>
#define LIB(ret, name, ...) extern "C" ret lib_##name(__VA_ARGS__)
#define REF(ret, name, ...) extern "C" ret ref_##name(__VA_ARGS__)
#define PRE(name, ...) extern "C" bool pre_##name(__VA_ARGS__)
