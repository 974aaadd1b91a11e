// C18: bounds that keep the sign of a difference of positive quantities are sound and attained; fast roots are accurate.
#include "engine.hpp"
#include "gen.hpp"
#include "sz_cp_preserve_utils.hpp"
using namespace vp;
typedef long double LD;
static LD ipow(LD x, int d) { LD r = 1; while (d--) r *= x; return r; }
static float bits(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static double gen_pos(Case& c) {
  switch (c.weighted({4, 2, 2, 1})) {
    case 0: return pow10i(-4 + 8 * c.unit());
    case 1: return (double)(1 + c.draw(20));
    case 2: return pow10i(-30 + 60 * c.unit());
    default: return std::ldexp(1.0, (int)c.range(-60, 60));
  }
}
static void prop(Case& c) {
  int what = c.weighted({5, 3, 3});
  if (what == 0) {
    int d = 1 + (int)c.draw(3); bool flt = c.chance(3);
    double P = gen_pos(c), N = c.draw(3) == 0 ? P * (1 + (c.unit() - 0.5) * pow10i(-(double)c.range(0, 10))) : gen_pos(c);
    if (c.chance(20)) (c.draw(2) ? P : N) = 0;
    if (flt) { P = (float)P; N = (float)N; }
    c.note("positive %.17g negative %.17g degree %d %s", P, N, d, flt ? "float" : "double"); c.label("pair:degree " + std::to_string(d));
    double e = flt ? max_eb_to_keep_sign<float>((float)P, (float)N, d) : max_eb_to_keep_sign<double>(P, N, d);
    if (!(e >= 0 && e <= 1)) c.fail("bound %.17g outside [0,1]", e);
    if (P == 0 || N == 0) { if (e != 1 && !(P == 0 && N == 0)) c.fail("one side is zero, the sign can not flip, but the bound is %.17g", e); return; }
    bool plus = P > N; LD big = std::max(P, N), small = std::min(P, N);
    LD tol = flt ? 3e-7L : 1e-13L;
    LD in = e * (1 - 1e-9L) - tol, out = e * (1 + 1e-9L) + tol;
    if (in > 0 && big * ipow(1 - in, d) < small * ipow(1 + in, d)) c.fail("the sign of %.17g(1+e)^%d - %.17g(1+e')^%d flips within the bound %.17g", P, d, N, d, e);
    if (out < 1 && big * ipow(1 - out, d) > small * ipow(1 + out, d)) c.fail("the bound %.17g for %.17g(1+e)^%d - %.17g(1+e')^%d is not attained", e, P, d, N, d);
    if (in > 0) for (int t = 0; t < 4; t++) {      // arbitrary perturbations of the factors
      Rng r(c.seed()); LD p = P, n = N; for (int k = 0; k < d; k++) { p *= 1 + in * (r.below(3) ? (LD)r.sym() : (r.below(2) ? 1.0L : -1.0L)); n *= 1 + in * (r.below(3) ? (LD)r.sym() : (r.below(2) ? 1.0L : -1.0L)); }
      if (plus ? p < n : p > n) c.fail("a perturbation within the bound %.17g flips the sign of %.17g(1+e)^%d - %.17g(1+e')^%d", e, P, d, N, d);
    }
    c.nontrivial(P != N);
  } else if (what == 1) {
    float x = c.draw(4) == 0 ? (float)gen_pos(c) : bits(0x00800000u + (uint32_t)c.draw(0x7f800000u - 0x00800000u));
    c.note("root of %.9g", x);
    bool sq = c.draw(2); c.label(sq ? "sqrt" : "cbrt");
    double y = sq ? asqrt1(x) : acbrt1(x), t = sq ? std::sqrt((double)x) : std::cbrt((double)x), r = y / t - 1;
    if (!(r >= -3e-7 && r <= (sq ? 5e-7 : 1.5e-6))) c.fail("%s of %.9g is %.9g, relative error %.4g", sq ? "asqrt1" : "acbrt1", x, y, r);
    c.nontrivial();
  } else {
    int d = 2 + (int)c.draw(2);
    float P = (float)gen_pos(c), N = c.draw(3) == 0 ? (float)(P * (1 + (c.unit() - 0.5) * pow10i(-(double)c.range(0, 5)))) : (float)gen_pos(c);
    c.note("fast: positive %.9g negative %.9g degree %d", P, N, d); c.label("fast pair:degree " + std::to_string(d));
    double e = d == 2 ? max_eb_to_keep_sign_2d_offline(P, N) : max_eb_to_keep_sign_3d_offline(P, N);
    double exact = d == 2 ? std::fabs(std::sqrt((double)P) - std::sqrt((double)N)) / (std::sqrt((double)P) + std::sqrt((double)N)) : std::fabs(std::cbrt((double)P) - std::cbrt((double)N)) / (std::cbrt((double)P) + std::cbrt((double)N));
    if (!(std::fabs(e - exact) <= 2e-6)) c.fail("fast bound for %.9g against %.9g of degree %d is %.9g, exactly it is %.9g", P, N, d, e, exact);
    c.nontrivial(P != N);
  }
}
int main(int argc, char** argv) {
  Check k{"C18", "random positive pair and degree (exact and fast bounds) or random positive normal float (roots); non-trivial when the two quantities differ", prop, 1200000, 25000000};
  k.assumptions = {"fast roots: positive normal floats", "rounding tolerance 1e-13 (double), 3e-7 (float), 2e-6 (fast bounds)"};
  return run_check(argc, argv, k);
}
