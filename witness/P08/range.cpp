#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/is_segment_in_range.hpp>
// a closed segment meets the closed wedge from lo counter clockwise to hi (less than a half turn) exactly when an end is in it or it meets one of its two sides
static bool inw(double x, double y, double lx, double ly, double hx, double hy) { return crs(lx,ly,x,y) >= 0 && crs(hx,hy,x,y) <= 0; }
static bool side(double ax, double ay, double bx, double by, double dx, double dy) { double p = crs(dx,dy,ax,ay), q = crs(dx,dy,bx,by); double fa = ax*dx+ay*dy, fb = bx*dx+by*dy;
  if (p == 0 && q == 0) return fa >= 0 || fb >= 0; if (p == 0) return fa >= 0; if (q == 0) return fb >= 0; if ((p > 0) == (q > 0)) return false; return p > 0 ? p*fb - q*fa >= 0 : p*fb - q*fa <= 0; }
static bool meets(double ax, double ay, double bx, double by, double lx, double ly, double hx, double hy) { return inw(ax,ay,lx,ly,hx,hy) || inw(bx,by,lx,ly,hx,hy) || side(ax,ay,bx,by,lx,ly) || side(ax,ay,bx,by,hx,hy); }
//@ anchor geometrix/algorithm/is_segment_in_range.hpp is_segment_in_range_2d
#define RNG(n, LX, LY, HX, HY) LIB(bool, rng##n, double ax, double ay, double bx, double by) { return is_segment_in_range_2d(S2(P2(ax,ay),P2(bx,by)), V2(LX,LY), V2(HX,HY), P2(0,0)); } \
REF(bool, rng##n, double ax, double ay, double bx, double by) { return meets(ax,ay,bx,by,LX,LY,HX,HY); } PRE(rng##n, double ax, double ay, double bx, double by) { return (ax != bx) | (ay != by); }
RNG(a, 1,0, 0,1) RNG(b, 0,1, -1,0) RNG(c, 0,-1, 1,0) RNG(d, -1,0, 0,-1)
#define RNO(n, LX, LY, HX, HY, AX, AY, BX, BY) LIB(bool, rng##n, double u, double v) { return is_segment_in_range_2d(S2(P2(AX+3,AY+5),P2(BX+3,BY+5)), V2(LX,LY), V2(HX,HY), P2(3,5)); } \
REF(bool, rng##n, double u, double v) { return meets(AX,AY,BX,BY,LX,LY,HX,HY); } 
RNO(e, 3,-4, 3,4, u,-2, -1,v) RNO(f, 3,4, -3,4, u,-2, -1,v) RNO(g, 3,4, -3,4, u,-2, 2,v) RNO(h, -3,4, -3,-4, -4,u, v,4) RNO(i, 4,-3, 0,1, u,v, -3,4) RNO(j, 4,-3, 0,1, u,v, 8,-6) RNO(k, 4,-3, 0,1, u,v, -8,6) RNO(l, 0,-1, 4,3, u,v, 0,2)
