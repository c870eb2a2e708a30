// A figure is written once in terms of FIG: p(i)/q(i) the i-th point of the argument cells in the plane/in space, v(i)/w(i) a
// direction scaled like the figure, d(i) a direction that keeps its size, at(x,y)/to(x,y)/dir(x,y) literal ones, l(i) a length,
// s the unit of length. The library is asked about the figure itself and about its image under a similarity; results of degree
// D in the length must grow by s^D and reported points must be the images of the reported points.
// FIGMODE 0: another unit of length, 1: moved, 2: turned by the angle of the 3-4-5 triangle (its multiples are dense) and moved.
#pragma once
struct FIG { const double* a; double s, c, e, x, y, z;
#if FIGMODE == 0
  P2 at(double u, double v) const { return P2(s*u, s*v); } V2 to(double u, double v) const { return V2(s*u, s*v); } V2 dir(double u, double v) const { return V2(u,v); }
  P3 at(double u, double v, double w) const { return P3(s*u, s*v, s*w); } V3 to(double u, double v, double w) const { return V3(s*u, s*v, s*w); }
#elif FIGMODE == 1
  P2 at(double u, double v) const { return P2(u+x, v+y); } V2 to(double u, double v) const { return V2(u,v); } V2 dir(double u, double v) const { return V2(u,v); }
  P3 at(double u, double v, double w) const { return P3(u+x, v+y, w+z); } V3 to(double u, double v, double w) const { return V3(u,v,w); }
#else
  P2 at(double u, double v) const { return P2(c*u-e*v+x, e*u+c*v+y); } V2 to(double u, double v) const { return V2(c*u-e*v, e*u+c*v); } V2 dir(double u, double v) const { return V2((c*u-e*v)/s, (e*u+c*v)/s); }
  P3 at(double u, double v, double w) const { return P3(c*u-e*v+x, e*u+c*v+y, s*w+z); } V3 to(double u, double v, double w) const { return V3(c*u-e*v, e*u+c*v, s*w); }
#endif
  P2 p(int i) const { return at(a[2*i], a[2*i+1]); } V2 v(int i) const { return to(a[2*i], a[2*i+1]); } V2 d(int i) const { return dir(a[2*i], a[2*i+1]); }
  P3 q(int i) const { return at(a[3*i], a[3*i+1], a[3*i+2]); } V3 w(int i) const { return to(a[3*i], a[3*i+1], a[3*i+2]); }
  S2 g(int i) const { return S2(p(i), p(i+1)); } double l(int i) const { return s*a[i]; } };
#if FIGMODE == 0
#define FIGARG double s
#define FIG1 FIG{a,s,s,0,0,0,0}
#define FIGPRE s > 0
#define FN(n) n##_s
#elif FIGMODE == 1
#define FIGARG double x, double y, double z
#define FIG1 FIG{a,1,1,0,x,y,z}
#define FIGPRE true
#define FN(n) n##_t
#else
#define FIGARG double x, double y
#define FIG1 FIG{a,5,3,4,x,y,0}
#define FIGPRE true
#define FN(n) n##_r
#endif
#define FIG0 FIG{a,1,1,0,0,0,0}
static inline double pw(double s, int d) { return d < 0 ? 1/s : d == 0 ? 1 : d == 1 ? s : d == 2 ? s*s : s*s*s; }
// the unturned figure is FIGMODE independent: in mode 2 it is the figure with c = s = 1, e = 0
#define FH(n, D, E) static inline double fig_##n(const FIG f) { return E; } LIB(double, n, const double* a, FIGARG) { return fig_##n(FIG1); } REF(double, n, const double* a, FIGARG) { const FIG m = FIG1; return pw(m.s,D) * fig_##n(FIG0); } PRE(n, const double* a, FIGARG) { return FIGPRE; }
// several results: I[] numbers, J[] lengths, X[] points (none when H is set to false)
#define FHO(n, NI, NJ, NX, ...) static inline bool fig_##n(double* I, double* J, P2* X, const FIG f) { for (int i = 0; i < NI; ++i) I[i] = 0; for (int i = 0; i < NJ; ++i) J[i] = 0; bool H = true; __VA_ARGS__ return H; } LIB(void, n, double* o, const double* a, FIGARG) { double I[NI+1], J[NJ+1]; P2 X[NX+1]; bool H = fig_##n(I,J,X,FIG1); o[0] = H; for (int i = 0; i < NI; ++i) o[1+i] = I[i]; for (int i = 0; i < NJ; ++i) o[1+NI+i] = J[i]; if (NX) for (int i = 0; i < NX; ++i) if (H) { o[1+NI+NJ+2*i] = X[i][0]; o[2+NI+NJ+2*i] = X[i][1]; } else { o[1+NI+NJ+2*i] = 0; o[2+NI+NJ+2*i] = 0; } } REF(void, n, double* o, const double* a, FIGARG) { double I[NI+1], J[NJ+1]; P2 X[NX+1]; const FIG m = FIG1; bool H = fig_##n(I,J,X,FIG0); o[0] = H; for (int i = 0; i < NI; ++i) o[1+i] = I[i]; for (int i = 0; i < NJ; ++i) o[1+NI+i] = m.s*J[i]; if (NX) for (int i = 0; i < NX; ++i) if (H) { P2 t = m.at(X[i][0],X[i][1]); o[1+NI+NJ+2*i] = t[0]; o[2+NI+NJ+2*i] = t[1]; } else { o[1+NI+NJ+2*i] = 0; o[2+NI+NJ+2*i] = 0; } } PRE(n, double* o, const double* a, FIGARG) { return FIGPRE; }
#define FHX(n, D, E) FH(n, D, E)
#define FHOX(n, NI, NJ, NX, ...) FHO(n, NI, NJ, NX, __VA_ARGS__)
#if FIGMODE == 1
#define M(n, D, E) H(n, D, E)
#else
#define M(n, D, E)
#endif
// M: moved only; H, HO: any figure; A, AO: figures bound to the axes, not turned
#define H(n, D, E) FHX(FN(n), D, E)
#define HO(n, NI, NJ, NX, ...) FHOX(FN(n), NI, NJ, NX, __VA_ARGS__)
#if FIGMODE == 2
#define A(n, D, E)
#define AO(n, NI, NJ, NX, ...)
#else
#define A(n, D, E) H(n, D, E)
#define AO(n, NI, NJ, NX, ...) HO(n, NI, NJ, NX, __VA_ARGS__)
#endif
