#include "geo.hpp"
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <array>
#include <geometrix/primitive/plane.hpp>
#include <geometrix/primitive/hyperplane_traits.hpp>
#include <geometrix/algorithm/distance/point_line_distance.hpp>
#include <geometrix/algorithm/classify_simplex_to_plane.hpp>
typedef line<P2> L2; typedef plane<P3> PL;
// the line through two distinct points
PRE(linept, double* o, double ax, double ay, double bx, double by) { return d2sq(ax,ay,bx,by) > 0; }
//@ anchor geometrix/primitive/line.hpp line
LIB(void, linept, double* o, double ax, double ay, double bx, double by) { L2 l(P2(ax,ay), P2(bx,by)); o[0] = get<0>(l.get_reference_point()); o[1] = get<1>(l.get_reference_point()); o[2] = get<0>(l.get_parallel_vector()); o[3] = get<1>(l.get_parallel_vector()); o[4] = get<0>(l.get_normal_vector()); o[5] = get<1>(l.get_normal_vector()); o[6] = l.get_distance_to_origin(); }
REF(void, linept, double* o, double ax, double ay, double bx, double by) { double n = std::sqrt(d2sq(ax,ay,bx,by)); double u = (bx-ax)/n, v = (by-ay)/n; o[0]=ax; o[1]=ay; o[2]=u; o[3]=v; o[4]=-v; o[5]=u; o[6]=-v*ax+u*ay; }
PRE(linevec, double* o, double ax, double ay, double bx, double by) { return sq(bx)+sq(by) > 0; }
LIB(void, linevec, double* o, double ax, double ay, double bx, double by) { L2 l(P2(ax,ay), V2(bx,by)); o[0] = get<0>(l.get_reference_point()); o[1] = get<1>(l.get_reference_point()); o[2] = get<0>(l.get_parallel_vector()); o[3] = get<1>(l.get_parallel_vector()); o[4] = get<0>(l.get_normal_vector()); o[5] = get<1>(l.get_normal_vector()); o[6] = l.get_distance_to_origin(); }
REF(void, linevec, double* o, double ax, double ay, double bx, double by) { double n = std::sqrt(sq(bx)+sq(by)); double u = bx/n, v = by/n; o[0]=ax; o[1]=ay; o[2]=u; o[3]=v; o[4]=-v; o[5]=u; o[6]=-v*ax+u*ay; }
PRE(lineseg, double* o, double ax, double ay, double bx, double by) { return d2sq(ax,ay,bx,by) > 0; }
LIB(void, lineseg, double* o, double ax, double ay, double bx, double by) { L2 l = make_line(S2(P2(ax,ay), P2(bx,by))); o[0] = get<0>(l.get_reference_point()); o[1] = get<1>(l.get_reference_point()); o[2] = get<0>(l.get_parallel_vector()); o[3] = get<1>(l.get_parallel_vector()); o[4] = get<0>(l.get_normal_vector()); o[5] = get<1>(l.get_normal_vector()); o[6] = l.get_distance_to_origin(); }
REF(void, lineseg, double* o, double ax, double ay, double bx, double by) { double n = std::sqrt(d2sq(ax,ay,bx,by)); double u = (bx-ax)/n, v = (by-ay)/n; o[0]=ax; o[1]=ay; o[2]=u; o[3]=v; o[4]=-v; o[5]=u; o[6]=-v*ax+u*ay; }
// signed distance
//@ anchor geometrix/algorithm/distance/point_line_distance.hpp signed_point_line_distance
#define L4 double x, double y, double ax, double ay, double bx, double by
PRE(sdist, L4) { return d2sq(ax,ay,bx,by) > 0; }
LIB(double, sdist, L4) { return signed_point_line_distance(P2(x,y), L2(P2(ax,ay),P2(bx,by))); }
REF(double, sdist, L4) { return turn(ax,ay,bx,by,x,y)/std::sqrt(d2sq(ax,ay,bx,by)); }
PRE(sflip, L4) { return d2sq(ax,ay,bx,by) > 0; }
LIB(double, sflip, L4) { return signed_point_line_distance(P2(x,y), L2(P2(bx,by),P2(ax,ay))); }
REF(double, sflip, L4) { return -signed_point_line_distance(P2(x,y), L2(P2(ax,ay),P2(bx,by))); }
PRE(adist, L4) { return d2sq(ax,ay,bx,by) > 0; }
LIB(double, adist, L4) { return point_line_distance(P2(x,y), L2(P2(ax,ay),P2(bx,by))); }
REF(double, adist, L4) { double d = turn(ax,ay,bx,by,x,y)/std::sqrt(d2sq(ax,ay,bx,by)); return d < 0 ? -d : d; }
// classification against a line: sign of the turn
//@ anchor geometrix/algorithm/classify_simplex_to_plane.hpp classify_point_to_plane
PRE(clsl, L4) { return d2sq(ax,ay,bx,by) > 0; }
LIB(int, clsl, L4) { return (int)classify_point_to_plane(P2(x,y), L2(P2(ax,ay),P2(bx,by)), EXACT()); }
REF(int, clsl, L4) { double t = turn(ax,ay,bx,by,x,y); return t > 0 ? 1 : t < 0 ? 2 : 0; }
PRE(clslt, L4, double e) { return e >= 0 && d2sq(ax,ay,bx,by) > 0; }
LIB(int, clslt, L4, double e) { return (int)classify_point_to_plane(P2(x,y), L2(P2(ax,ay),P2(bx,by)), TOL(e)); }
REF(int, clslt, L4, double e) { double t = turn(ax,ay,bx,by,x,y)/std::sqrt(d2sq(ax,ay,bx,by)); return t > e ? 1 : t < -e ? 2 : 0; }
//@ anchor geometrix/algorithm/classify_simplex_to_plane.hpp classify_simplex_to_plane
static int comb(bool f, bool b) { return f && b ? 3 : f ? 1 : b ? 2 : 0; }
PRE(simp2, const double* p, double ax, double ay, double bx, double by) { return d2sq(ax,ay,bx,by) > 0; }
LIB(int, simp2, const double* p, double ax, double ay, double bx, double by) { S2 s(P2(p[0],p[1]),P2(p[2],p[3])); return (int)classify_simplex_to_plane(s, L2(P2(ax,ay),P2(bx,by)), EXACT()); }
REF(int, simp2, const double* p, double ax, double ay, double bx, double by) { double t = turn(ax,ay,bx,by,p[0],p[1]), u = turn(ax,ay,bx,by,p[2],p[3]); return comb(t > 0 || u > 0, t < 0 || u < 0); }
// space
static double tri(const double* a, const double* b, const double* c, const double* p) { double u0=b[0]-a[0],u1=b[1]-a[1],u2=b[2]-a[2],v0=c[0]-a[0],v1=c[1]-a[1],v2=c[2]-a[2]; return (u1*v2-u2*v1)*(p[0]-a[0])+(u2*v0-u0*v2)*(p[1]-a[1])+(u0*v1-u1*v0)*(p[2]-a[2]); }
static double area2(const double* a, const double* b, const double* c) { double u0=b[0]-a[0],u1=b[1]-a[1],u2=b[2]-a[2],v0=c[0]-a[0],v1=c[1]-a[1],v2=c[2]-a[2]; return sq(u1*v2-u2*v1)+sq(u2*v0-u0*v2)+sq(u0*v1-u1*v0); }
static P3 mk(const double* p) { return P3(p[0],p[1],p[2]); }
//@ anchor geometrix/primitive/plane.hpp plane
#define PA const double* u, const double* v
PRE(pln, double* o, PA) { return sq(u[0])+sq(u[1])+sq(u[2]) > 0 && sq(v[0])+sq(v[1])+sq(v[2]) > 0 && sq(u[1]*v[2]-u[2]*v[1])+sq(u[2]*v[0]-u[0]*v[2])+sq(u[0]*v[1]-u[1]*v[0]) > 0; }
LIB(void, pln, double* o, PA) { PL p(P3(1,2,3), V3(u[0],u[1],u[2]), V3(v[0],v[1],v[2])); o[0] = get<0>(p.get_normal_vector()); o[1] = get<1>(p.get_normal_vector()); o[2] = get<2>(p.get_normal_vector()); o[3] = p.get_distance_to_origin(); }
REF(void, pln, double* o, PA) { double x=u[1]*v[2]-u[2]*v[1], y=u[2]*v[0]-u[0]*v[2], z=u[0]*v[1]-u[1]*v[0]; double n = std::sqrt(x*x+y*y+z*z); o[0]=x/n; o[1]=y/n; o[2]=z/n; o[3]=(x+2*y+3*z)/n; }
//@ anchor geometrix/algorithm/classify_simplex_to_plane.hpp classify_point_to_plane
#define TH const double* p, const double* a, const double* b, const double* c
PRE(cls3, TH) { return area2(a,b,c) > 0; }
LIB(int, cls3, TH) { return (int)classify_point_to_plane(mk(p), PL(mk(a),mk(b),mk(c)), EXACT()); }
REF(int, cls3, TH) { double t = tri(a,b,c,p); return t > 0 ? 1 : t < 0 ? 2 : 0; }
PRE(simp3, const double* p) { return true; }
LIB(int, simp3, const double* p) { std::array<P3,3> s = {{mk(p),mk(p+3),mk(p+6)}}; return (int)classify_simplex_to_plane(s, PL(P3(1,0,0),P3(0,3,1),P3(-1,0,2)), EXACT()); }
REF(int, simp3, const double* p) { const double a[]={1,0,0},b[]={0,3,1},c[]={-1,0,2}; double t=tri(a,b,c,p),u=tri(a,b,c,p+3),w=tri(a,b,c,p+6); return comb(t>0||u>0||w>0, t<0||u<0||w<0); }
