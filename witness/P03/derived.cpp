#include "geo.hpp"
#include <geometrix/arithmetic/vector/perp.hpp>
#include <geometrix/arithmetic/vector/normalize.hpp>
#include <geometrix/arithmetic/vector/bisect.hpp>
#include <geometrix/arithmetic/vector/is_antiparallel.hpp>
// the direction half way along the counter-clockwise turn from lo to hi: a whole turn when they agree
static void half(double* o, double ax, double ay, double bx, double by) { double la = sqrt(ax*ax+ay*ay), lb = sqrt(bx*bx+by*by), c = crs(ax,ay,bx,by), d = ax*bx+ay*by; 
  if (c == 0) { if (d > 0) { o[0] = -bx/lb; o[1] = -by/lb; } else { o[0] = by/lb; o[1] = -bx/lb; } return; }
  double sx = ax/la + bx/lb, sy = ay/la + by/lb, l = sqrt(sx*sx+sy*sy); o[0] = (c > 0 ? sx : -sx)/l; o[1] = (c > 0 ? sy : -sy)/l; }
#define BI(n, AX, AY, BX, BY) LIB(void, bis##n, double* o, double u) { V2 r = bisect(V2(AX,AY), V2(BX,BY)); o[0] = r[0]; o[1] = r[1]; } REF(void, bis##n, double* o, double u) { half(o, AX, AY, BX, BY); } PRE(bis##n, double* o, double u) { return !(AX == 0 && AY == 0) && !(BX == 0 && BY == 0); } \
LIB(void, bna##n, double* o, double u) { V2 r = bisect_not_antiparallel(V2(AX,AY), V2(BX,BY)); o[0] = r[0]; o[1] = r[1]; } REF(void, bna##n, double* o, double u) { half(o, AX, AY, BX, BY); } PRE(bna##n, double* o, double u) { double ax = AX, ay = AY, bx = BX, by = BY; return crs(ax,ay,bx,by) != 0; } \
LIB(bool, anti##n, double u) { return is_antiparallel(V2(AX,AY), V2(BX,BY), EXACT()); } REF(bool, anti##n, double u) { double ax = AX, ay = AY, bx = BX, by = BY; return crs(ax,ay,bx,by) == 0 && ax*bx+ay*by < 0; } PRE(anti##n, double u) { return !(AX == 0 && AY == 0) && !(BX == 0 && BY == 0); }
//@ anchor geometrix/arithmetic/vector/bisect.hpp bisect
BI(a, u, 0, 0, 2) BI(b, 3, 4, u, 0) BI(c, 3, 4, -4, u) BI(d, 0, u, 5, 0) BI(e, 3*u, 4*u, 8, -6) BI(f, 2, 0, u, u)
