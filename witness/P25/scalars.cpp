#include "geo.hpp"
//@ anchor geometrix/utility/utilities.hpp clamp
LIB(double, clamp, double n, double lo, double hi) { return geometrix::clamp(n, lo, hi); }
REF(double, clamp, double n, double lo, double hi) { return std::fmin(std::fmax(n, lo), hi); }
PRE(clamp, double n, double lo, double hi) { return lo <= hi; }
LIB(int, clampi, int n, int lo, int hi) { return geometrix::clamp(n, lo, hi); }
REF(int, clampi, int n, int lo, int hi) { return n < lo ? lo : n > hi ? hi : n; }
PRE(clampi, int n, int lo, int hi) { return lo <= hi; }
//@ anchor geometrix/utility/utilities.hpp min_copy / max_copy
LIB(double, minc, double a, double b) { return min_copy(a, b); }
REF(double, minc, double a, double b) { return std::fmin(a, b); }
LIB(double, maxc, double a, double b) { return max_copy(a, b); }
REF(double, maxc, double a, double b) { return std::fmax(a, b); }
//@ anchor geometrix/utility/utilities.hpp sign
LIB(int, sign, double a) { return geometrix::sign(a); }
REF(int, sign, double a) { return a < 0 ? -1 : 1; }
