// C04: pointwise-relative bound (2D float).
#include "engine.hpp"
#include "gen.hpp"
#include "oracle.hpp"
#include "sz_compress_pwr.hpp"
#include "sz_decompress_pwr.hpp"
using namespace vp;

static void prop(Case& c) {
  Shape2 s = gen_shape2(c, size_cap(c, c.tier ? 40000 : 10000), c.tier ? 400 : 130);
  int bs = c.weighted({5, 5, 1}) == 0 ? 12 : (int)c.range(2, c.chance(4) ? 64 : 16);
  auto a = gen_field<float>(c, s.r1, s.r2, 1);
  if (c.chance(8)) { int k = (int)c.range(-30, 30); Rng r(c.seed()); for (auto& x : a) if (x != 0) x = (float)((r.below(2) ? 1 : -1) * pow10i(k * r.unit() * 1.2)); c.label("field:whole-float-range"); }
  bool subnormal = c.chance(10);
  if (subnormal) { Rng r(c.seed()); unsigned in = 1 + c.draw(20); for (auto& x : a) if (r.below(in) == 0) x = (float)((r.below(2) ? 1 : -1) * std::ldexp(r.unit() + 0.5, -(int)(127 + r.below(23)))); c.label("field:subnormals"); }
  double eb;
  switch (c.weighted({4, 5, 2})) { case 0: { static const double f[] = {1, 0.5, 0.1, 0.01, 0.001}; eb = f[c.draw(5)]; break; } case 1: eb = pow10i(-4 * c.unit()); break; default: eb = 3e-5 * pow10i(c.unit()); }
  double maxlog = 0; size_t zeros = 0;
  for (float x : a) { if (x == 0) zeros++; else maxlog = std::max(maxlog, std::fabs(std::log2(std::fabs((double)x)))); }
  // the working precision in the logarithmic domain must leave room for the rounding of the logarithm
  double reserve = maxlog * 1.1920929e-07;
  eb = std::max(eb, 12 * reserve); if (eb > 1) eb = 1;
  c.note("rel eb=%.9g block=%d", eb, bs);
  c.label(zeros == 0 ? "zeros:none" : zeros == s.n() ? "zeros:all" : "zeros:some");
  size_t sz = 0;
  unsigned char* p = sz_compress_2d_pwr<float>(a.data(), s.r1, s.r2, eb, sz, bs, c.chance(2));
  c.check(p != nullptr && sz > 0, "no stream");
  unsigned char* q = exact_copy(p, sz); free(p);
  float* d = sz_decompress_2d_pwr<float>(q, s.r1, s.r2);
  free(q);
  c.check(d != nullptr, "no array");
  // below the normal range a result can be no closer than half the spacing of subnormal numbers
  if (subnormal) for (size_t i = 0; i < s.n(); i++) if (a[i] != 0 && std::fabs(a[i]) < FLT_MIN) {
    double e = std::fabs((double)d[i] - (double)a[i]);
    if (!(e <= (eb * (1 + 1e-6) + 4e-7) * std::fabs((double)a[i]) + std::ldexp(1.0, -149))) c.fail("value %zu: original %.9g came back as %.9g, bound %.9g", i, a[i], d[i], eb);
    if (d[i] != 0 && std::signbit(a[i]) != std::signbit(d[i])) c.fail("value %zu: original %.9g came back with the other sign %.9g", i, a[i], d[i]);
    d[i] = a[i];
  }
  size_t exact = check_rel(c, a.data(), d, s.n(), eb, 4e-7, "value");
  for (size_t i = 0; i < s.n(); i++) if (a[i] != 0 && d[i] != 0 && std::signbit(a[i]) != std::signbit(d[i])) c.fail("value %zu: sign lost", i);
  free(d);
  c.nontrivial(s.n() >= 4 && zeros < s.n() && exact < s.n());
}
int main(int argc, char** argv) {
  Check k{"C04", "random shape, field family (zeros, mixed signs, magnitudes over the whole float range), relative bound; non-trivial when at least 4 values, not all zero, and at least one value not returned bit for bit", prop, 40000, 400000};
  k.assumptions = {"finite floats; subnormal values: the bound or the spacing of subnormal numbers, whichever is larger", "relative bound at least 12 times the rounding of the logarithm (|log2 x|*2^-23) and at most 1", "slack of 4e-7 for exp2/log2 rounding"};
  return run_check(argc, argv, k);
}
