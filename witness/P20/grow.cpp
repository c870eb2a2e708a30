//@ grow geometrix/primitive/point_sequence_utilities.hpp geometrix/algorithm/point_sequence/length.hpp geometrix/algorithm/point_sequence/polyline_mid_point.hpp
#include "geo.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
#include <geometrix/algorithm/point_sequence/polyline_mid_point.hpp>
#include "grow.hpp"
// measures of long sequences
static double fan(const double* p) { double s = 0; for (int i = 0; i < SZ; ++i) { int j = i == SZ-1 ? 0 : i+1; s += p[2*i]*p[2*j+1] - p[2*j]*p[2*i+1]; } return s; }
//@ anchor geometrix/primitive/point_sequence_utilities.hpp get_signed_area
LIB(double, gsa, const double* p) { return get_signed_area(arr(p)); } REF(double, gsa, const double* p) { return fan(p) / 2; }
LIB(double, gar, const double* p) { return get_area(arr(p)); } REF(double, gar, const double* p) { return std::fabs(fan(p)) / 2; }
//@ anchor geometrix/primitive/point_sequence_utilities.hpp get_centroid
static void cen(double* o, const P2* v, int k, double x, double y) { double a = 0, cx = 0, cy = 0; for (int i = 0; i < SZ; ++i) { int j = i == SZ-1 ? 0 : i+1; double px = i == k ? x : get<0>(v[i]), py = i == k ? y : get<1>(v[i]), qx = j == k ? x : get<0>(v[j]), qy = j == k ? y : get<1>(v[j]), c = px*qy - qx*py; a += c; cx += (px+qx)*c; cy += (py+qy)*c; } o[0] = cx/(3*a); o[1] = cy/(3*a); }
static double area(int k, double x, double y) { double s = 0; auto v = arf(par); v[k] = P2(x,y); for (int i = 0; i < SZ; ++i) { int j = i == SZ-1 ? 0 : i+1; s += v[i][0]*v[j][1] - v[j][0]*v[i][1]; } return s; }
#define CEN(n, K) LIB(void, gce##n, double* o, double x, double y) { auto v = arf(par); v[K] = P2(x,y); P2 c = get_centroid(v); o[0] = c[0]; o[1] = c[1]; } REF(void, gce##n, double* o, double x, double y) { auto v = arf(par); cen(o, v.data(), K, x, y); } PRE(gce##n, double*, double x, double y) { return area(K, x, y) > 1; }
CEN(0, 0) CEN(h, SZ/2) CEN(l, SZ-1)
//@ anchor geometrix/algorithm/point_sequence/length.hpp polyline_length
#define LEN(n, K) LIB(double, gpl##n, double x, double y) { auto v = arf(stair); v[K] = P2(x,y); return polyline_length(v); } REF(double, gpl##n, double x, double y) { auto v = arf(stair); v[K] = P2(x,y); double s = 0; for (int i = 1; i < SZ; ++i) s += d(v[i-1],v[i]); return s; } \
LIB(double, gpg##n, double x, double y) { auto v = arf(flat); v[K] = P2(x,y); return polygon_length(v); } REF(double, gpg##n, double x, double y) { auto v = arf(flat); v[K] = P2(x,y); double s = d(v[SZ-1],v[0]); for (int i = 1; i < SZ; ++i) s += d(v[i-1],v[i]); return s; }
static P2 stair(int k) { return P2((k+1)/2, k/2); } 
static P2 flat(int k) { return P2(k, 0); }
static double d(const P2& a, const P2& b) { return std::sqrt((b[0]-a[0])*(b[0]-a[0]) + (b[1]-a[1])*(b[1]-a[1])); }
LEN(0, 0) LEN(h, SZ/2) LEN(l, SZ-1)
//@ anchor geometrix/algorithm/point_sequence/polyline_mid_point.hpp polyline_mid_point
LIB(void, gmid, double* o, double x, double y) { std::array<P2,SZ> v; for (int i = 0; i < SZ; ++i) v[i] = P2(x+(i+1)/2, y+i/2); P2 m = polyline_mid_point(v); o[0] = m[0]; o[1] = m[1]; }
REF(void, gmid, double* o, double x, double y) { int n = SZ-1; double h = n / 2.0; int k = n / 2; o[0] = x + (k+1)/2; o[1] = y + k/2; if (h > k) { if (k % 2 == 0) o[0] += 0.5; else o[1] += 0.5; } }
