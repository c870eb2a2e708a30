#include "w.hpp"
#include <cstdint>
#include <tuple>
#include <new>
#include <boost/range.hpp>
#include <geometrix/utility/random_generator.hpp>
#include <geometrix/utility/golden_ratio_color_generator.hpp>
#include <geometrix/utility/private_allocator.hpp>
using namespace geometrix;
//@ anchor geometrix/utility/random_generator.hpp sequence_generator
LIB(void, seqgen, double* o, double x) { sequence_generator<double> g(x); o[0] = g(); o[1] = g(); o[2] = g(); }
REF(void, seqgen, double* o, double x) { o[0] = x; o[1] = x + 1; o[2] = x + 2; }
//@ anchor geometrix/utility/golden_ratio_color_generator.hpp hsv2rgb
// one hue inside each sixth of the circle: which channel is full, which sits at the floor v(1-s), which is in between
#define HUE(n, H, FX, R, G, B) LIB(void, hue##n, int* o, double sd, double vd) { auto c = hsv2rgb(H, (float)sd, (float)vd); o[0] = std::get<0>(c); o[1] = std::get<1>(c); o[2] = std::get<2>(c); o[3] = std::get<3>(c); } \
REF(void, hue##n, int* o, double sd, double vd) { float s = (float)sd, v = (float)vd, p = v * (1 - s), f = FX, q = v * (1 - f * s), t = v * (1 - (1 - f) * s); o[0] = 255; o[1] = (std::uint8_t)(R * 255); o[2] = (std::uint8_t)(G * 255); o[3] = (std::uint8_t)(B * 255); } \
PRE(hue##n, int*, double s, double v) { return 0 <= s && s <= 1 && 0 <= v && v <= 1; }
HUE(0, 0.125f, 0.75f, v, t, p) HUE(1, 0.25f, 0.5f, q, v, p) HUE(2, 0.375f, 0.25f, p, v, t) HUE(3, 0.625f, 0.75f, p, q, v) HUE(4, 0.75f, 0.5f, t, p, v) HUE(5, 0.875f, 0.25f, v, p, q)
GEOMETRIX_PRIVATE_ALLOCATOR(wit_alloc)
struct tracked { double* log; double v; tracked(double* l, double x) : log(l), v(x) { l[0] += x; } ~tracked() { log[1] += v; } };
//@ anchor geometrix/utility/private_allocator.hpp construct / destroy
LIB(void, alloc_life, double* o, double x) { o[0] = 0; o[1] = 0; wit_alloc<tracked> a; alignas(tracked) char buf[sizeof(tracked)]; tracked* p = (tracked*)buf; a.construct(p, o, x); o[2] = p->v; a.destroy(p); }
REF(void, alloc_life, double* o, double x) { o[0] = x; o[1] = x; o[2] = x; }
LIB(void, alloc_store, double* o, double x, double y) { wit_alloc<double> a; double* p = a.allocate(2); p[0] = x; p[1] = y; o[0] = p[0]; o[1] = p[1]; a.deallocate(p, 2); o[2] = wit_alloc<double>() == wit_alloc<int>(); o[3] = wit_alloc<double>() != wit_alloc<int>(); o[4] = a.max_size() == std::size_t(-1) / 8; o[5] = a.address(x) == &x; }
REF(void, alloc_store, double* o, double x, double y) { o[0] = x; o[1] = y; o[2] = 1; o[3] = 0; o[4] = 1; o[5] = 1; }
