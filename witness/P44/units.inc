// bodies written once for plain and for unit-carrying numbers
namespace si = boost::units::si;
typedef boost::units::quantity<si::length,double> L; typedef boost::units::quantity<si::time,double> T; typedef boost::units::quantity<si::velocity,double> S;
typedef point<L,2> PL; typedef vector<L,2> VL; typedef vector<S,2> VS; typedef point<L,3> PL3; typedef vector<L,3> VL3; typedef segment<PL> SL; typedef std::array<PL,3> TL; typedef std::array<PL,4> QL; typedef std::array<P2,3> T3; typedef std::array<P2,4> Q4;
static L m(double x) { return x * si::meters; }
template <class N> struct K;
template <> struct K<double> { typedef P2 P; typedef V2 V; typedef P3 PP; typedef V3 VV; typedef double N; static double n(double x) { return x; } typedef double D; typedef V2 W; static double t(double x) { return x; } static double s(double x) { return x; } };
template <> struct K<L> { typedef PL P; typedef VL V; typedef PL3 PP; typedef VL3 VV; typedef L N; static L n(double x) { return m(x); } typedef boost::units::quantity<si::dimensionless,double> D; typedef VS W; static T t(double x) { return x * si::seconds; } static S s(double x) { return x * si::meters_per_second; } };
template <class U> static double val(const boost::units::quantity<U,double>& q) { return q.value(); }
static double val(double x) { return x; }
template <class Seq> static void out(double* o, const Seq& s) { o[0] = val(geometrix::get<0>(s)); o[1] = val(geometrix::get<1>(s)); }
#define SAME(NM, ...) template <class X> static void b_##NM(double* o, const double* a) { typedef typename K<X>::P P; typedef typename K<X>::V V; typedef typename K<X>::PP PP; typedef typename K<X>::VV VV; auto q = [](double x) { return K<X>::n(x); }; auto p = [&](int i) { return P(q(a[2*i]), q(a[2*i+1])); }; auto v = [&](int i) { return V(q(a[2*i]), q(a[2*i+1])); }; auto pp = [&](int i) { return PP(q(a[3*i]), q(a[3*i+1]), q(a[3*i+2])); }; auto vv = [&](int i) { return VV(q(a[3*i]), q(a[3*i+1]), q(a[3*i+2])); }; (void)p; (void)v; (void)pp; (void)vv; __VA_ARGS__ } LIB(void, NM, double* o, const double* a) { b_##NM<L>(o, a); } REF(void, NM, double* o, const double* a) { b_##NM<double>(o, a); }
