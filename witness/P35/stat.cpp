#include "geo.hpp"
#include <geometrix/utility/scope_timer.hpp>
//@ anchor geometrix/utility/scope_timer.hpp running_stat
typedef scope_timer_detail::running_stat<double> RS; typedef scope_timer_detail::running_stat<std::uint64_t> RI;
LIB(void, rs0, double* o, double x) { RS s; o[0] = s.counts(); o[1] = s.mean(); o[2] = s.variance(); s.push(x); o[3] = s.counts(); o[4] = s.mean(); o[5] = s.variance(); o[6] = s.sum(); s.clear(); o[7] = s.counts(); o[8] = s.mean(); }
REF(void, rs0, double* o, double x) { o[0] = o[1] = o[2] = 0; o[3] = 1; o[4] = x; o[5] = 0; o[6] = x; o[7] = o[8] = 0; }
LIB(void, rs, double* o, const double* p) { RS s; for (int i = 0; i < 4; ++i) { s.push(p[i]); o[4*i] = s.counts(); o[4*i+1] = s.mean(); o[4*i+2] = s.variance(); o[4*i+3] = s.sum(); } }
REF(void, rs, double* o, const double* p) { for (int n = 1; n <= 4; ++n, o += 4) { double m = 0, v = 0; for (int i = 0; i < n; ++i) m += p[i]; o[3] = m; m /= n; for (int i = 0; i < n; ++i) v += (p[i]-m)*(p[i]-m); o[0] = n; o[1] = m; o[2] = n > 1 ? v/(n-1) : 0; } }
LIB(void, rs_clr, double* o, const double* p) { RS s; s.push(p[0]); s.push(p[1]); s.clear(); s.push(p[2]); s.push(p[3]); o[0] = s.counts(); o[1] = s.mean(); o[2] = s.variance(); o[3] = s.sum(); double d = s.standard_deviation(); o[4] = d*d; o[5] = d >= 0; }
REF(void, rs_clr, double* o, const double* p) { o[0] = 2; o[1] = (p[2]+p[3])/2; o[2] = o[4] = (p[2]-p[3])*(p[2]-p[3])/2; o[3] = p[2]+p[3]; o[5] = 1; }
LIB(void, rs_int, double* o, const unsigned* p) { RI s; for (int i = 0; i < 3; ++i) s.push(p[i]); o[0] = s.counts(); o[1] = s.mean(); o[2] = s.variance(); o[3] = s.sum(); }
REF(void, rs_int, double* o, const unsigned* p) { double a = p[0], b = p[1], c = p[2]; double m = (a+b+c)/3; o[0] = 3; o[1] = m; o[2] = ((a-m)*(a-m)+(b-m)*(b-m)+(c-m)*(c-m))/2; o[3] = a+b+c; }
