#include "geo.hpp"
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/algorithm/rotation.hpp>
typedef polyline<P2> PL; typedef polygon<P2> PG; typedef matrix<double, 2, 2> M2;
static void out(double* o, const P2& p) { o[0] = get<0>(p); o[1] = get<1>(p); }
static void out(double* o, const V2& p) { o[0] = get<0>(p); o[1] = get<1>(p); }
// rotation taking the unit direction (ux,uy) to (vx,vy): its cosine is the dot product, its sine the turn
static void rot(double* o, double c, double s, double x, double y, double ox, double oy) { o[0] = ox + c*(x-ox) - s*(y-oy); o[1] = oy + s*(x-ox) + c*(y-oy); }
#define UV double ux, double uy, double vx, double vy
#define C (ux*vx+uy*vy)
#define S (ux*vy-uy*vx)
#define UNIT (ux*ux+uy*uy == 1 && vx*vx+vy*vy == 1)
//@ anchor geometrix/algorithm/rotation.hpp make_rotation_matrix
LIB(void, mk, double* o, UV) { M2 m = make_rotation_matrix(V2(ux,uy), V2(vx,vy)); o[0] = m[0][0]; o[1] = m[0][1]; o[2] = m[1][0]; o[3] = m[1][1]; }
REF(void, mk, double* o, UV) { o[0] = C; o[1] = -S; o[2] = S; o[3] = C; }
// the first direction is turned onto the second
LIB(void, onto, double* o, UV) { out(o, rotate_vector(V2(ux,uy), V2(ux,uy), V2(vx,vy))); } REF(void, onto, double* o, UV) { o[0] = vx; o[1] = vy; } PRE(onto, double*, UV) { return UNIT; }
//@ anchor geometrix/algorithm/rotation.hpp rotate_vector
LIB(void, rv, double* o, double x, double y, UV) { out(o, rotate_vector(V2(x,y), V2(ux,uy), V2(vx,vy))); } REF(void, rv, double* o, double x, double y, UV) { rot(o, C, S, x, y, 0, 0); }
LIB(void, rvm, double* o, double x, double y, double a, double b, double c, double d) { M2 m{{{a, b}, {c, d}}}; out(o, rotate_vector(V2(x,y), m)); } REF(void, rvm, double* o, double x, double y, double a, double b, double c, double d) { o[0] = a*x+b*y; o[1] = c*x+d*y; }
// length and handedness are kept
LIB(void, rigid, double* o, double x, double y, double z, double w, UV) { V2 a = rotate_vector(V2(x,y), V2(ux,uy), V2(vx,vy)), b = rotate_vector(V2(z,w), V2(ux,uy), V2(vx,vy)); o[0] = dot_product(a, b); o[1] = exterior_product_area(a, b); }
REF(void, rigid, double* o, double x, double y, double z, double w, UV) { double k = (ux*ux+uy*uy)*(vx*vx+vy*vy); o[0] = k*(x*z+y*w); o[1] = k*(x*w-y*z); }
// forth and back
LIB(void, back, double* o, double x, double y, UV) { V2 u(ux,uy), v(vx,vy); out(o, rotate_vector(rotate_vector(V2(x,y), u, v), v, u)); } REF(void, back, double* o, double x, double y, UV) { double k = (ux*ux+uy*uy)*(vx*vx+vy*vy); o[0] = k*x; o[1] = k*y; }
//@ anchor geometrix/algorithm/rotation.hpp rotate_point
LIB(void, rp, double* o, double x, double y, UV, double p, double q) { out(o, rotate_point(P2(x,y), V2(ux,uy), V2(vx,vy), P2(p,q))); } REF(void, rp, double* o, double x, double y, UV, double p, double q) { rot(o, C, S, x, y, p, q); }
LIB(void, rpm, double* o, double x, double y, double a, double b, double c, double d, double p, double q) { M2 m{{{a, b}, {c, d}}}; out(o, rotate_point(P2(x,y), m, P2(p,q))); } REF(void, rpm, double* o, double x, double y, double a, double b, double c, double d, double p, double q) { o[0] = p+a*(x-p)+b*(y-q); o[1] = q+c*(x-p)+d*(y-q); }
//@ anchor geometrix/algorithm/rotation.hpp rotate_points
template <class Seq> static Seq seq(const double* p, int n) { Seq g; for (int i = 0; i < n; ++i) g.push_back(P2(p[2*i], p[2*i+1])); return g; }
template <class Seq> static void dump(double* o, const Seq& g) { o[0] = g.size(); for (std::size_t i = 0; i < g.size(); ++i) out(o+1+2*i, g[i]); }
#define SEQ(NAME, T, N) LIB(void, NAME, double* o, const double* v, UV, double p, double q) { dump(o, rotate_points(seq<T>(v, N), V2(ux,uy), V2(vx,vy), P2(p,q))); } \
REF(void, NAME, double* o, const double* v, UV, double p, double q) { o[0] = N; for (int i = 0; i < N; ++i) rot(o+1+2*i, C, S, v[2*i], v[2*i+1], p, q); }
SEQ(rs0, PL, 0) SEQ(rs1, PL, 1) SEQ(rs2, PL, 2) SEQ(rs4, PL, 4) SEQ(rg3, PG, 3) SEQ(rg5, PG, 5)
//@ anchor geometrix/algorithm/rotation.hpp rotate_translate_points
#define SEQT(NAME, T, N) LIB(void, NAME, double* o, const double* v, UV, double p, double q, double dx, double dy) { dump(o, rotate_translate_points(seq<T>(v, N), V2(ux,uy), V2(vx,vy), V2(dx,dy), P2(p,q))); } \
REF(void, NAME, double* o, const double* v, UV, double p, double q, double dx, double dy) { o[0] = N; for (int i = 0; i < N; ++i) { rot(o+1+2*i, C, S, v[2*i], v[2*i+1], p, q); o[1+2*i] += dx; o[2+2*i] += dy; } } \
LIB(void, NAME##m, double* o, const double* v, double a, double b, double c, double d, double p, double q, double dx, double dy) { M2 m{{{a, b}, {c, d}}}; dump(o, rotate_translate_points(seq<T>(v, N), m, V2(dx,dy), P2(p,q))); } \
REF(void, NAME##m, double* o, const double* v, double a, double b, double c, double d, double p, double q, double dx, double dy) { o[0] = N; for (int i = 0; i < N; ++i) { double x = v[2*i]-p, y = v[2*i+1]-q; o[1+2*i] = a*x+b*y+p+dx; o[2+2*i] = c*x+d*y+q+dy; } }
SEQT(rt1, PL, 1) SEQT(rt3, PL, 3) SEQT(rtg4, PG, 4)
