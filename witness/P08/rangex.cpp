#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/is_segment_in_range.hpp>
static bool inw(double x, double y, double lx, double ly, double hx, double hy) { return crs(lx,ly,x,y) >= 0 && crs(hx,hy,x,y) <= 0; }
static bool side(double ax, double ay, double bx, double by, double dx, double dy) { double p = crs(dx,dy,ax,ay), q = crs(dx,dy,bx,by); double fa = ax*dx+ay*dy, fb = bx*dx+by*dy;
  if (p == 0 && q == 0) return fa >= 0 || fb >= 0; if (p == 0) return fa >= 0; if (q == 0) return fb >= 0; if ((p > 0) == (q > 0)) return false; return p > 0 ? p*fb - q*fa >= 0 : p*fb - q*fa <= 0; }
static bool meets(double ax, double ay, double bx, double by, double lx, double ly, double hx, double hy) { return inw(ax,ay,lx,ly,hx,hy) || inw(bx,by,lx,ly,hx,hy) || side(ax,ay,bx,by,lx,ly) || side(ax,ay,bx,by,hx,hy); }
// the overload reporting points agrees with the plain one
//@ anchor geometrix/algorithm/is_segment_in_range.hpp is_segment_in_range_2d (with points)
#define RNG(n, LX, LY, HX, HY) LIB(bool, rgx##n, double ax, double ay, double bx, double by) { P2 xp[2]; return is_segment_in_range_2d(S2(P2(ax,ay),P2(bx,by)), V2(LX,LY), V2(HX,HY), P2(0,0), xp, EXACT()); } \
REF(bool, rgx##n, double ax, double ay, double bx, double by) { return meets(ax,ay,bx,by,LX,LY,HX,HY); } PRE(rgx##n, double ax, double ay, double bx, double by) { return (ax != bx) | (ay != by); }
RNG(a, 1,0, 0,1) RNG(b, 0,1, -1,0) RNG(c, 0,-1, 1,0) RNG(d, -1,0, 0,-1)
#define RNO(n, LX, LY, HX, HY, AX, AY, BX, BY) LIB(bool, rgx##n, double u, double v) { P2 xp[2]; return is_segment_in_range_2d(S2(P2(AX+3,AY+5),P2(BX+3,BY+5)), V2(LX,LY), V2(HX,HY), P2(3,5), xp, EXACT()); } \
REF(bool, rgx##n, double u, double v) { return meets(AX,AY,BX,BY,LX,LY,HX,HY); }
RNO(e, 3,-4, 3,4, u,-2, -1,v) RNO(f, 3,4, -3,4, u,-2, -1,v) RNO(g, 3,4, -3,4, u,-2, 2,v) RNO(h, -3,4, -3,-4, -4,u, v,4) RNO(i, 4,-3, 0,1, u,v, -3,4) RNO(j, 4,-3, 0,1, u,v, 8,-6) RNO(k, 4,-3, 0,1, u,v, -8,6) RNO(l, 0,-1, 4,3, u,v, 0,2)
// and the points are the ends of the part of the segment inside the quadrant (in either order)
#define RNP(n, PREC) LIB(void, rgp##n, double* o, double ax, double ay, double bx, double by) { P2 x[2]; bool r = is_segment_in_range_2d(S2(P2(ax,ay),P2(bx,by)), V2(1,0), V2(0,1), P2(0,0), x, EXACT()); o[0] = r; bool sw = sq(get<0>(x[0])-ax)+sq(get<1>(x[0])-ay) > sq(get<0>(x[1])-ax)+sq(get<1>(x[1])-ay); const P2& f = sw ? x[1] : x[0]; const P2& g = sw ? x[0] : x[1]; o[1] = get<0>(f); o[2] = get<1>(f); o[3] = get<0>(g); o[4] = get<1>(g); } \
REF(void, rgp##n, double* o, double ax, double ay, double bx, double by) { double s = 0, t = 1; if (ax < 0) { double k = ax/(ax-bx); if (k > s) s = k; } if (ay < 0) { double k = ay/(ay-by); if (k > s) s = k; } if (bx < 0) { double k = ax/(ax-bx); if (k < t) t = k; } if (by < 0) { double k = ay/(ay-by); if (k < t) t = k; } o[0] = 1; o[1] = ax+s*(bx-ax); o[2] = ay+s*(by-ay); o[3] = ax+t*(bx-ax); o[4] = ay+t*(by-ay); } \
PRE(rgp##n, double*, double ax, double ay, double bx, double by) { return PREC; }
RNP(ii, ax >= 0 && ay >= 0 && bx >= 0 && by >= 0)
RNP(il, ax > 0 && ay > 0 && bx < 0 && by > 0)
RNP(ib, ax > 0 && ay > 0 && bx > 0 && by < 0)
RNP(li, ax < 0 && ay > 0 && bx > 0 && by > 0)
RNP(di, ax < 0 && ay < 0 && bx > 0 && by > 0)
RNP(id, ax > 0 && ay > 0 && bx < 0 && by < 0)
RNP(oo, ax < 0 && ay > 0 && bx > 0 && by < 0 && ax*by - ay*bx < 0)
RNP(ox, ax > 0 && ay < 0 && bx < 0 && by > 0 && ax*by - ay*bx > 0)
