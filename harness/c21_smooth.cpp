// C21: smoothed absolute value and its derivative, sign derivative, circle area.
#include <cmath>
#include "common.hpp"
#include "Mathfunctions.hpp"
#include "Stochastic.hpp"
using namespace Aux;
static double const zone = 1e-4; // half width of the documented smoothing zone is at most this
void harness() {
  int part = sx_int("part", 0, 4);
  if (part == 0) { // everywhere
    bool far = sx_bool("far");
    double t = far ? sx_double("t", -1e10, 1e10) : sx_double("t", -50, 50), x = zone * t;
    if (far) sx_assume(t > 40 || t < -40);
    double f = smooth_abs(x), d = dsmooth_abs_dx(x);
    sx_eq(zone * d, sx_d(f, "t"), "reported derivative is the derivative");
    sx_eq(smooth_abs(-x), f, "even");
    sx_eq(dsmooth_abs_dx(-x), -d, "derivative odd");
    sx_le(0, f, "nonnegative");
    sx_le(f, x < 0 ? -x : x, "not above the absolute value");
    sx_le(d, 1.4142135624, "slope bounded");
    sx_le(-1.4142135624, d, "slope bounded below");
    if (x > 0) { sx_lt(0, d, "increasing in the modulus"); sx_lt(0, f, "zero only at zero"); }
    else if (x < 0) { sx_lt(d, 0, "decreasing left of zero"); sx_lt(0, f, "zero only at zero"); }
    else { sx_eq(f, 0, "zero at zero"); sx_eq(d, 0, "flat at zero"); }
    if (x >= zone || x <= -zone) { sx_eq(f, x < 0 ? -x : x, "equals the absolute value outside"); sx_eq(d, x < 0 ? -1.0 : 1.0, "slope of the absolute value outside"); sx_reach("outside"); }
    else sx_reach("inside");
  } else if (part == 1) { // seams: values from the two sides agree
    bool neg = sx_bool("neg");
    double x = sx_double("x", -1, 1), y = sx_double("y", -1, 1), x0 = neg ? -zone : zone;
    if (neg) sx_assume(x < -zone && y > -zone && y < 0); else sx_assume(x > zone && y < zone && y > 0);
    sx_eq(sx_limit(smooth_abs(x), "x", x0), sx_limit(smooth_abs(y), "y", x0), "continuous at the seam");
    sx_eq(sx_limit(dsmooth_abs_dx(x), "x", x0), sx_limit(dsmooth_abs_dx(y), "y", x0), "slope continuous at the seam");
    sx_eq(smooth_abs(x0), zone, "value at the seam");
    sx_reach("seam");
  } else if (part == 2) {
    double x = sx_double("x", -1e6, 1e6);
    int s = 7;
    bool threw = throws([&] { s = dabs_dx(x); });
    bool small = x < 1e-13 && x > -1e-13;
    sx_assert(threw == small, "derivative of |x| rejected exactly near zero");
    if (!threw) { sx_assert(s == (x > 0 ? 1 : -1), "sign of the argument"); sx_reach("sign"); }
    else sx_reach("undefined");
  } else if (part == 3) {
    double r = sx_double("r", 0, 1e4);
    sx_eq(circle_area(r), 3.141592653589793 * r * r, "area of a circle");
    sx_eq(Pi, 3.141592653589793, "pi");
    sx_assert(EPSILON > 0 && EPSILON <= 1e-8, "comparison tolerance small and positive");
    sx_reach("circle");
  } else {
    double x = sx_double("x", -1e6, 1e6);
    int s = sgn(x);
    sx_assert(s == (x > 0 ? 1 : x < 0 ? -1 : 0), "sign");
    sx_reach("sgn");
  }
}
