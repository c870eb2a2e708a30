#include <boost/mpl/bool.hpp>
#include <geometrix/utility/array.hpp>
#include "geo.hpp"
#include <geometrix/space/cartesian_reference_frame.hpp>
#include <geometrix/space/polar_reference_frame.hpp>
#include <geometrix/space/cartesian_polar_transformation.hpp>
#include <geometrix/space/polar_cartesian_transformation.hpp>
#include <geometrix/space/cartesian_access_traits.hpp>
#include <geometrix/space/polar_access_traits.hpp>
typedef reference_frame_adaptor<P2, cartesian_reference_frame_2d> CP2; typedef reference_frame_adaptor<P3, cartesian_reference_frame_3d> CP3;
typedef reference_frame_adaptor<P2, polar_reference_frame_2d> PP2; typedef reference_frame_adaptor<P3, polar_reference_frame_3d> PP3;
#define V(x) boost::units::quantity_cast<double>(x)
//@ anchor geometrix/space/cartesian_polar_transformation.hpp transform
LIB(void, c2p2, double* o, double x, double y) { PP2 p(CP2(P2(x,y))); o[0] = p.get<0>(); o[1] = p.get<1>(); }
REF(void, c2p2, double* o, double x, double y) { o[0] = std::sqrt(x*x+y*y); o[1] = std::atan2(y, x); }
LIB(void, c2p3, double* o, double x, double y, double z) { PP3 p(CP3(P3(x,y,z))); o[0] = p.get<0>(); o[1] = p.get<1>(); o[2] = p.get<2>(); }
REF(void, c2p3, double* o, double x, double y, double z) { o[0] = std::sqrt(x*x+y*y+z*z); o[1] = std::atan2(y, x); o[2] = std::atan2(std::sqrt(x*x+y*y), z); }
//@ anchor geometrix/space/polar_cartesian_transformation.hpp transform
LIB(void, p2c2, double* o, double r, double t) { CP2 p(PP2(P2(r,t))); o[0] = p.get<0>(); o[1] = p.get<1>(); }
REF(void, p2c2, double* o, double r, double t) { o[0] = r*std::cos(t); o[1] = r*std::sin(t); }
LIB(void, p2c3, double* o, double r, double t, double f) { CP3 p(PP3(P3(r,t,f))); o[0] = p.get<0>(); o[1] = p.get<1>(); o[2] = p.get<2>(); }
REF(void, p2c3, double* o, double r, double t, double f) { o[0] = r*std::sin(f)*std::cos(t); o[1] = r*std::sin(f)*std::sin(t); o[2] = r*std::cos(f); }
//@ anchor geometrix/space/reference_frame_transformation.hpp identity transformation
LIB(void, cc, double* o, double x, double y) { CP2 p(CP2(P2(x,y))); CP2 n(P2(x,y)); o[0] = p.get<0>(); o[1] = p.get<1>(); o[2] = V(get_x(p)); o[3] = V(get_y(p)); o[4] = n.get<0>(); o[5] = n.get<1>(); }
REF(void, cc, double* o, double x, double y) { o[0] = o[2] = o[4] = x; o[1] = o[3] = o[5] = y; }
LIB(void, pp, double* o, double r, double t) { PP2 p(PP2(P2(r,t))); o[0] = p.get<0>(); o[1] = p.get<1>(); o[2] = V(get_r(p)); o[3] = V(get_theta(p)); }
REF(void, pp, double* o, double r, double t) { o[0] = o[2] = r; o[1] = o[3] = t; }
LIB(void, pp3, double* o, double r, double t, double f) { PP3 p(P3(r,t,f)); o[0] = V(get_r(p)); o[1] = V(get_theta(p)); o[2] = V(get_phi(p)); }
REF(void, pp3, double* o, double r, double t, double f) { o[0] = r; o[1] = t; o[2] = f; }
//@ anchor geometrix/space/polar_access_traits.hpp get_r / get_theta / get_phi
LIB(void, gp2, double* o, double x, double y) { P2 p(x,y); o[0] = V(get_r(p)); o[1] = V(get_theta(p)); CP2 c(p); // a frameless point is read as it is
  o[2] = V(get_r(c)); o[3] = V(get_theta(c)); }
REF(void, gp2, double* o, double x, double y) { o[0] = x; o[1] = y; o[2] = std::sqrt(x*x+y*y); o[3] = std::atan2(y, x); }
LIB(void, gp3, double* o, double x, double y, double z) { CP3 p(P3(x,y,z)); o[0] = V(get_r(p)); o[1] = V(get_theta(p)); o[2] = V(get_phi(p)); }
REF(void, gp3, double* o, double x, double y, double z) { o[0] = std::sqrt(x*x+y*y+z*z); o[1] = std::atan2(y, x); o[2] = std::atan2(std::sqrt(x*x+y*y), z); }
//@ anchor geometrix/space/cartesian_access_traits.hpp get_x / get_y / get_z
LIB(void, gc2, double* o, double r, double t) { PP2 p(P2(r,t)); o[0] = V(get_x(p)); o[1] = V(get_y(p)); P2 q(r,t); o[2] = V(get_x(q)); o[3] = V(get_y(q)); }
REF(void, gc2, double* o, double r, double t) { o[0] = r*std::cos(t); o[1] = r*std::sin(t); o[2] = r; o[3] = t; }
LIB(void, gc3, double* o, double r, double t, double f) { PP3 p(P3(r,t,f)); o[0] = V(get_x(p)); o[1] = V(get_y(p)); o[2] = V(get_z(p)); P3 q(r,t,f); o[3] = V(get_x(q)); o[4] = V(get_y(q)); o[5] = V(get_z(q)); }
REF(void, gc3, double* o, double r, double t, double f) { o[0] = r*std::sin(f)*std::cos(t); o[1] = r*std::sin(f)*std::sin(t); o[2] = r*std::cos(f); o[3] = r; o[4] = t; o[5] = f; }
LIB(void, raw, double* o, double x, double y) { CP2 p(P2(x,y)); o[0] = polar_access_traits<CP2>::get_raw<0>(p); o[1] = polar_access_traits<CP2>::get_raw<1>(p); o[2] = cartesian_access_traits<CP2>::get_raw<0>(p); o[3] = cartesian_access_traits<CP2>::get_raw<1>(p); }
REF(void, raw, double* o, double x, double y) { o[0] = std::sqrt(x*x+y*y); o[1] = std::atan2(y, x); o[2] = x; o[3] = y; }
//@ anchor geometrix/primitive/point_traits.hpp reference_frame_adaptor assignment
LIB(void, asg, double* o, double x, double y, double r, double t) { PP2 p(P2(0,0)); p = CP2(P2(x,y)); o[0] = p.get<0>(); o[1] = p.get<1>(); CP2 c(P2(0,0)); c = PP2(P2(r,t)); o[2] = c.get<0>(); o[3] = c.get<1>(); c = P2(x,r); o[4] = c.get<0>(); o[5] = c.get<1>(); }
REF(void, asg, double* o, double x, double y, double r, double t) { o[0] = std::sqrt(x*x+y*y); o[1] = std::atan2(y, x); o[2] = r*std::cos(t); o[3] = r*std::sin(t); o[4] = x; o[5] = r; }
