// C17: quantised error bounds are conservative, reproducible from the index, monotone and not vacuous.
#include "engine.hpp"
#include "gen.hpp"
#include "sz_cp_preserve_utils.hpp"
#include <limits>
using namespace vp;

struct Cfg { int base; double threshold; };
static double gen_eb(Case& c, const Cfg& g) {
  double e = 0; int kind = c.weighted({6, 6, 3, 2, 1, 1});
  int k = (int)c.draw(60); if (g.base == 4) k %= 30;
  switch (kind) {
    case 0: e = pow10i(-18 + 24 * c.unit()); break;
    case 1: {   // on and next to a power of the base
      e = std::pow((double)g.base, k) * g.threshold; int d = (int)c.range(-3, 3);
      for (int i = 0; i < std::abs(d); i++) e = std::nextafter(e, d < 0 ? 0 : 1e300);
      if (c.chance(3)) e *= 1 + (c.unit() - 0.5) * pow10i(-(double)c.range(1, 15));
      break; }
    case 2: e = g.threshold * g.base * c.unit(); break;
    case 3: e = std::log2(1 + pow10i(-8 + 8 * c.unit())); break;
    case 4: e = c.draw(2) ? std::numeric_limits<double>::denorm_min() * (1 + c.draw(1000)) : 0.0; break;
    case 5: e = pow10i(10 + 200 * c.unit()); break;
  }
  static const char* names[] = {"any", "near-power", "below-smallest", "log-domain", "zero-or-denormal", "huge"};
  c.label(std::string("eb:") + names[kind]);
  return e;
}
static void one(Case& c, const Cfg& g, double e, int& id, double& q) {
  q = e; id = eb_exponential_quantize(q, g.base, std::log2((double)g.base), g.threshold);
  if (id < 0) c.fail("bound %.17g got the negative index %d", e, id);
  if (!(q >= 0)) c.fail("bound %.17g was quantised to %.17g", e, q);
  if (q > e * (1 + 1e-12)) c.fail("bound %.17g was quantised to the larger %.17g (base %d, threshold %g, index %d)", e, q, g.base, g.threshold, id);
  double again = id == 0 ? 0 : std::pow((double)g.base, id) * g.threshold;
  if (std::fabs(again - q) > 1e-12 * q) c.fail("bound %.17g: the index %d stands for %.17g, the encoder uses %.17g", e, id, again, q);
  if (id == 0 && e > g.threshold * g.base * (1 + 1e-9)) c.fail("bound %.17g was quantised to zero, the smallest representable one is %.17g", e, g.threshold * g.base);
  if (id > 0 && q * g.base < e * (1 - 1e-9)) c.fail("bound %.17g was quantised to %.17g: more than one step of base %d lost", e, q, g.base);
}
static void prop(Case& c) {
  if (c.chance(5)) {      // linear
    static const double th[] = {1e-5, 1e-2, 1e-3, 0.5, 1}; double t = th[c.draw(5)];
    double a = c.draw(3) == 0 ? t * c.draw(1000) : t * pow10i(-3 + 10 * c.unit()), b = a * (1 + c.unit());
    if (c.chance(3)) a = std::nextafter(a, c.draw(2) ? 0 : 1e300);
    else if (c.chance(3)) a = std::floor(a / t) * t * (1 + (c.draw(2) ? -1 : 1) * pow10i(-4 - 11 * c.unit()));   // next to a multiple
    if (b < a) b = a;
    c.note("linear %.17g %.17g step %g", a, b, t); c.label("linear");
    double qa = a, qb = b; int ia = eb_linear_quantize(qa, t), ib = eb_linear_quantize(qb, t);
    if (ia < 0 || qa < 0 || qa > a * (1 + 1e-12)) c.fail("linear: bound %.17g was quantised to %.17g", a, qa);
    if (a - qa > t * (1 + 1e-6) + 1e-9 * a) c.fail("linear: bound %.17g was quantised to %.17g, more than one step of %g lost", a, qa, t);
    if (std::fabs(qa - ia * t) > 1e-12 * qa) c.fail("linear: index %d does not stand for %.17g", ia, qa);
    if (ia > ib) c.fail("linear: bounds %.17g <= %.17g got indices %d > %d", a, b, ia, ib);
    c.nontrivial(ia > 0);
    return;
  }
  static const Cfg cf[] = {{2, std::numeric_limits<float>::epsilon()}, {4, std::numeric_limits<double>::epsilon()}, {2, std::numeric_limits<double>::epsilon()}, {4, std::numeric_limits<float>::epsilon()}};
  Cfg g = cf[c.weighted({4, 4, 2, 1})];
  if (c.chance(8)) { g.base = 2 + (int)c.draw(15); g.threshold = pow10i(-18 + 16 * c.unit()); }
  double a = gen_eb(c, g), b = c.draw(2) ? gen_eb(c, g) : std::nextafter(a, 1e300);
  if (b < a) std::swap(a, b);
  c.note("base %d threshold %.17g: %.17g <= %.17g", g.base, g.threshold, a, b); c.label("base:" + std::to_string(g.base));
  int ia, ib; double qa, qb;
  one(c, g, a, ia, qa); one(c, g, b, ib, qb);
  if (ia > ib) c.fail("bounds %.17g <= %.17g got indices %d > %d", a, b, ia, ib);
  // quantising what the index stands for changes nothing beyond one step and never grows
  double q2 = qa; int i2 = eb_exponential_quantize(q2, g.base, std::log2((double)g.base), g.threshold);
  if (i2 > ia) c.fail("requantising %.17g gives index %d, it came from index %d", qa, i2, ia);
  if (g.threshold == std::numeric_limits<float>::epsilon()) { double q3 = a; int i3 = eb_exponential_quantize(q3, g.base, std::log2((double)g.base)); if (i3 != ia || std::fabs(q3 - qa) > 1e-12 * qa) c.fail("the default threshold quantises %.17g differently", a); }
  c.nontrivial(ib > 0);
}
int main(int argc, char** argv) {
  Check k{"C17", "random base, threshold and pair of bounds (any magnitude, on/next to powers of the base, below the smallest, zero, denormal, huge); non-trivial when the larger bound gets a non-zero index", prop, 1500000, 30000000};
  k.assumptions = {"rounding of the logarithm may exceed a power of the base by a relative 1e-12", "linear quantisation: index below 2^31"};
  return run_check(argc, argv, k);
}
