#include "geo.hpp"
#include <geometrix/tensor/numeric_sequence_compare.hpp>
#include <geometrix/utility/point_angle_compare.hpp>
#include <geometrix/utility/vector_angle_compare.hpp>
#include <geometrix/algorithm/distance/distance_compare.hpp>
// ---- strict weak order axioms for a comparator C over elements built from doubles (2 or 3 coordinates)
// SWO(name, element type, builder, comparator): asymmetry (implies irreflexivity), transitivity, transitivity of ties
#define SWO2(n, T, C) \
LIB(bool, n##_irr, double ax, double ay) { T a(ax,ay); return (C)(a, a); } REF(bool, n##_irr, double, double) { return false; } \
LIB(bool, n##_asym, double ax, double ay, double bx, double by) { T a(ax,ay), b(bx,by); return (C)(a, b) && (C)(b, a); } REF(bool, n##_asym, double, double, double, double) { return false; } \
LIB(bool, n##_trans, double ax, double ay, double bx, double by, double cx, double cy) { T a(ax,ay), b(bx,by), c(cx,cy); return !((C)(a, b) && (C)(b, c)) || (C)(a, c); } REF(bool, n##_trans, double, double, double, double, double, double) { return true; } \
LIB(bool, n##_tie, double ax, double ay, double bx, double by, double cx, double cy) { T a(ax,ay), b(bx,by), c(cx,cy); return !(!(C)(a,b) && !(C)(b,a) && !(C)(b,c) && !(C)(c,b)) || (!(C)(a,c) && !(C)(c,a)); } REF(bool, n##_tie, double, double, double, double, double, double) { return true; }
//@ anchor geometrix/utility/utilities.hpp lexicographical_comparer
SWO2(lex2, P2, lexicographical_comparer<EXACT>{})
LIB(bool, lex2key, double ax, double ay, double bx, double by) { return lexicographical_comparer<EXACT>()(P2(ax,ay), P2(bx,by)); }
REF(bool, lex2key, double ax, double ay, double bx, double by) { return ax < bx || (ax == bx && ay < by); }
LIB(bool, lex2tol, double ax, double ay, double bx, double by, double t) { return lexicographical_comparer<TOL>(TOL(t))(P2(ax,ay), P2(bx,by)); }
REF(bool, lex2tol, double ax, double ay, double bx, double by, double t) { return bx - ax > t || (std::fabs(ax-bx) <= t && by - ay > t); }
PRE(lex2tol, double, double, double, double, double t) { return t >= 0; }
LIB(bool, lex2fn, double ax, double ay, double bx, double by) { return lexicographically_less_than(P2(ax,ay), P2(bx,by), EXACT()); }
REF(bool, lex2fn, double ax, double ay, double bx, double by) { return ax < bx || (ax == bx && ay < by); }
//@ anchor geometrix/utility/utilities.hpp lexicographical_compare (variadic)
LIB(bool, vlex2, double a, double b, double c, double d) { return lexicographical_compare(a, b, c, d); }
REF(bool, vlex2, double a, double b, double c, double d) { return a < b || (a == b && c < d); }
LIB(bool, vlex3, double a, double b, double c, double d, double e, double f) { return lexicographical_compare(a, b, c, d, e, f); }
REF(bool, vlex3, double a, double b, double c, double d, double e, double f) { return a != b ? a < b : c != d ? c < d : e < f; }
//@ anchor geometrix/utility/utilities.hpp reverse_lexicographical_point_compare
SWO2(rlex2, P2, reverse_lexicographical_point_compare<EXACT>{})
LIB(bool, rlex2key, double ax, double ay, double bx, double by) { return reverse_lexicographical_point_compare<EXACT>()(P2(ax,ay), P2(bx,by)); }
REF(bool, rlex2key, double ax, double ay, double bx, double by) { return ay < by || (ay == by && ax < bx); }
LIB(bool, rlex3key, const double* a, const double* b) { return reverse_lexicographical_point_compare<EXACT>()(P3(a[0],a[1],a[2]), P3(b[0],b[1],b[2])); }
REF(bool, rlex3key, const double* a, const double* b) { return a[2] != b[2] ? a[2] < b[2] : a[1] != b[1] ? a[1] < b[1] : a[0] < b[0]; }
//@ anchor geometrix/utility/utilities.hpp dimension_compare
typedef dimension_compare<1, EXACT> DC1;
SWO2(dim1, P2, DC1(EXACT{}))
LIB(bool, dim3key, const double* a, const double* b) { return dimension_compare<2, EXACT>(EXACT())(P3(a[0],a[1],a[2]), P3(b[0],b[1],b[2])); }
REF(bool, dim3key, const double* a, const double* b) { return a[2] != b[2] ? a[2] < b[2] : a[0] != b[0] ? a[0] < b[0] : a[1] < b[1]; }
//@ anchor geometrix/utility/utilities.hpp coordinate_less_compare
typedef coordinate_less_compare<double, EXACT> CLC;
LIB(bool, coordlt, double a, double b) { return CLC(EXACT())(a, b); }
REF(bool, coordlt, double a, double b) { return a < b; }
//@ anchor geometrix/utility/utilities.hpp pair_first_compare / pair_second_compare
typedef pair_first_compare<CLC> PF; typedef pair_second_compare<CLC> PS;
LIB(int, pairs, double a, double b, double c, double d) { std::pair<double,double> x(a,b), y(c,d); return PF(CLC(EXACT()))(x, y) + 2*PS(CLC(EXACT()))(x, y); }
REF(int, pairs, double a, double b, double c, double d) { return (a < c) + 2*(b < d); }
//@ anchor geometrix/utility/utilities.hpp lexicographical_segment_compare
static S2 sg(const double* a) { return S2(P2(a[0],a[1]), P2(a[2],a[3])); }
static bool pl(const double* a, const double* b) { return a[0] < b[0] || (a[0] == b[0] && a[1] < b[1]); }
LIB(bool, lexseg, const double* a, const double* b) { return lexicographical_segment_compare<EXACT>()(sg(a), sg(b)); }
REF(bool, lexseg, const double* a, const double* b) { const double *al = pl(a, a+2) ? a : a+2, *au = pl(a, a+2) ? a+2 : a, *bl = pl(b, b+2) ? b : b+2, *bu = pl(b, b+2) ? b+2 : b;
  return pl(al, bl) || (al[0] == bl[0] && al[1] == bl[1] && pl(au, bu)); }
LIB(bool, lexsegasym, const double* a, const double* b) { lexicographical_segment_compare<EXACT> c; return c(sg(a), sg(b)) && c(sg(b), sg(a)); }
REF(bool, lexsegasym, const double* a, const double* b) { return false; }
LIB(bool, lexsegrev, const double* a, const double* b) { lexicographical_segment_compare<EXACT> c; return c(S2(P2(a[2],a[3]), P2(a[0],a[1])), sg(b)) == c(sg(a), sg(b)); }
REF(bool, lexsegrev, const double* a, const double* b) { return true; }
//@ anchor geometrix/utility/utilities.hpp segment_interval_compare
LIB(bool, segint, const double* a, const double* b) { return segment_interval_compare<EXACT>()(sg(a), sg(b)); }
REF(bool, segint, const double* a, const double* b) { const double *au = pl(a, a+2) ? a+2 : a, *bl = pl(b, b+2) ? b : b+2; return pl(au, bl); }
LIB(bool, segintasym, const double* a, const double* b) { segment_interval_compare<EXACT> c; return c(sg(a), sg(b)) && c(sg(b), sg(a)); }
REF(bool, segintasym, const double* a, const double* b) { return false; }
//@ anchor geometrix/utility/vector_angle_compare.hpp vector_angle_compare
// order by counter-clockwise angle from the reference direction, in [0, 2 pi)
static bool anglt(double ax, double ay, double bx, double by) { int ha = !(ay > 0 || (ay == 0 && ax > 0)), hb = !(by > 0 || (by == 0 && bx > 0)); return ha != hb ? ha < hb : ax*by - ay*bx > 0; }
LIB(bool, vang, double ax, double ay, double bx, double by) { return vector_angle_compare<EXACT>()(V2(ax,ay), V2(bx,by)); }
REF(bool, vang, double ax, double ay, double bx, double by) { return anglt(ax,ay,bx,by); }
PRE(vang, double ax, double ay, double bx, double by) { return !(ax == 0 && ay == 0) && !(bx == 0 && by == 0); }
LIB(bool, vangasym, double ax, double ay, double bx, double by) { return vector_angle_compare<EXACT>()(V2(ax,ay), V2(bx,by)) && vector_angle_compare<EXACT>()(V2(bx,by), V2(ax,ay)); }
REF(bool, vangasym, double ax, double ay, double bx, double by) { return false; }
LIB(bool, vangref, double rx, double ry, double ax, double ay, double bx, double by) { return vector_angle_compare<EXACT>(V2(rx,ry))(V2(ax,ay), V2(bx,by)); }
REF(bool, vangref, double rx, double ry, double ax, double ay, double bx, double by) { double ac = rx*ay-ry*ax, ad = rx*ax+ry*ay, bc = rx*by-ry*bx, bd = rx*bx+ry*by;
  int ha = !(ac > 0 || (ac == 0 && ad > 0)), hb = !(bc > 0 || (bc == 0 && bd > 0)); return ha != hb ? ha < hb : ax*by - ay*bx > 0; }
PRE(vangref, double rx, double ry, double ax, double ay, double bx, double by) { return rx*ay-ry*ax != 0 && rx*by-ry*bx != 0; }
//@ anchor geometrix/utility/point_angle_compare.hpp point_angle_compare
LIB(bool, pang, double ox, double oy, double ax, double ay, double bx, double by) { return point_angle_compare<EXACT>(P2(ox,oy))(P2(ax,ay), P2(bx,by)); }
REF(bool, pang, double ox, double oy, double ax, double ay, double bx, double by) { return anglt(ax-ox,ay-oy,bx-ox,by-oy); }
PRE(pang, double ox, double oy, double ax, double ay, double bx, double by) { return !(ax == ox && ay == oy) && !(bx == ox && by == oy); }
//@ anchor geometrix/algorithm/distance/distance_compare.hpp distance_compare
typedef distance_compare<P2, EXACT> DCMP;
LIB(bool, dcmp, double ox, double oy, double ax, double ay, double bx, double by) { return DCMP(P2(ox,oy), EXACT())(P2(ax,ay), P2(bx,by)); }
REF(bool, dcmp, double ox, double oy, double ax, double ay, double bx, double by) { return d2sq(ox,oy,ax,ay) < d2sq(ox,oy,bx,by); }
//@ anchor geometrix/tensor/numeric_sequence_compare.hpp numeric_sequence_equals
LIB(bool, nse2, double ax, double ay, double bx, double by, double t) { return numeric_sequence_equals(P2(ax,ay), P2(bx,by), TOL(t)); }
REF(bool, nse2, double ax, double ay, double bx, double by, double t) { return std::fabs(ax-bx) <= t && std::fabs(ay-by) <= t; }
PRE(nse2, double, double, double, double, double t) { return t >= 0; }
LIB(bool, nse3, const double* a, const double* b) { return numeric_sequence_equals(P3(a[0],a[1],a[2]), P3(b[0],b[1],b[2]), EXACT()); }
REF(bool, nse3, const double* a, const double* b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }
LIB(int, nse23, const double* a, const double* b) { return numeric_sequence_equals_3d(P3(a[0],a[1],a[2]), P3(b[0],b[1],b[2]), EXACT()) + 2*numeric_sequence_equals_2d(P2(a[0],a[1]), P2(b[0],b[1]), EXACT()); }
REF(int, nse23, const double* a, const double* b) { return (a[0] == b[0] && a[1] == b[1] && a[2] == b[2]) + 2*(a[0] == b[0] && a[1] == b[1]); }
//@ anchor geometrix/utility/utilities.hpp lexicographical_comparer in dimensions four and five, and with a tolerance
#define LEXN(N) \
LIB(bool, lex##N##key, const double* a, const double* b) { point<double,N> p, q; for (int i = 0; i < N; ++i) { p[i] = a[i]; q[i] = b[i]; } return lexicographical_comparer<EXACT>()(p, q); } \
REF(bool, lex##N##key, const double* a, const double* b) { for (int i = 0; i < N - 1; ++i) if (a[i] != b[i]) return a[i] < b[i]; return a[N-1] < b[N-1]; } \
LIB(bool, lex##N##tol, const double* a, const double* b, double t) { point<double,N> p, q; for (int i = 0; i < N; ++i) { p[i] = a[i]; q[i] = b[i]; } return lexicographically_less_than(p, q, TOL(t)); } \
REF(bool, lex##N##tol, const double* a, const double* b, double t) { for (int i = 0; i < N - 1; ++i) if (std::fabs(a[i] - b[i]) > t) return b[i] - a[i] > t; return b[N-1] - a[N-1] > t; } \
PRE(lex##N##tol, const double*, const double*, double t) { return t >= 0; }
LEXN(3) LEXN(4) LEXN(5)
