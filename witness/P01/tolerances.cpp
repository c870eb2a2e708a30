#include "w.hpp"
#include <geometrix/numeric/number_comparison_policy.hpp>
#include <cmath>
using namespace geometrix;
// the free comparison functions: one coherent order per tolerance notion
static double ab(double x) { return x < 0 ? -x : x; }
static bool eqa(double u, double v, double e) { return ab(u - v) <= e; }
static bool eqf(double u, double v, double e) { if (u == 0) return ab(v) <= e; if (v == 0) return ab(u) <= e; return ab(u - v) <= e * ab(u) && ab(u - v) <= e * ab(v); }
#define CMP(n, CALL, SPEC) LIB(bool, n, double u, double v, double e) { return CALL; } REF(bool, n, double u, double v, double e) { return SPEC; } PRE(n, double, double, double e) { return e >= 0; }
//@ anchor geometrix/numeric/number_comparison_policy.hpp *_absolute_tolerance
CMP(eqa, equals_within_absolute_tolerance(u, v, e), eqa(u, v, e))
CMP(lta, less_than_with_absolute_tolerance(u, v, e), u < v && !eqa(u, v, e))
CMP(lea, less_than_or_equal_with_absolute_tolerance(u, v, e), u < v || eqa(u, v, e))
CMP(gta, greater_than_with_absolute_tolerance(u, v, e), u > v && !eqa(u, v, e))
CMP(gea, greater_than_or_equal_with_absolute_tolerance(u, v, e), u > v || eqa(u, v, e))
//@ anchor geometrix/numeric/number_comparison_policy.hpp *_fraction_tolerance
CMP(eqf, equals_within_fraction_tolerance(u, v, e), eqf(u, v, e))
CMP(ltf, less_than_with_fraction_tolerance(u, v, e), u < v && !eqf(u, v, e))
CMP(lef, less_than_or_equal_with_fraction_tolerance(u, v, e), u < v || eqf(u, v, e))
CMP(gtf, greater_than_with_fraction_tolerance(u, v, e), u > v && !eqf(u, v, e))
CMP(gef, greater_than_or_equal_with_fraction_tolerance(u, v, e), u > v || eqf(u, v, e))
