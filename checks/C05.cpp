// C05: pointwise-relative bound per point (2D float).
#include "engine.hpp"
#include "gen.hpp"
#include "oracle.hpp"
#include "sz_compress_pwr.hpp"
#include "sz_decompress_pwr.hpp"
using namespace vp;

static void prop(Case& c) {
  Shape2 s = gen_shape2(c, size_cap(c, c.tier ? 30000 : 6000), c.tier ? 300 : 110);
  int bs = c.weighted({5, 5, 1}) == 0 ? 12 : (int)c.range(2, c.chance(4) ? 64 : 16);
  auto a = gen_field<float>(c, s.r1, s.r2, 1);
  if (c.chance(8)) { int k = (int)c.range(-30, 30); Rng r(c.seed()); for (auto& x : a) if (x != 0) x = (float)((r.below(2) ? 1 : -1) * pow10i(k * r.unit() * 1.2)); c.label("field:whole-float-range"); }
  if (c.chance(10)) { Rng r(c.seed()); unsigned in = 1 + c.draw(20); for (auto& x : a) if (r.below(in) == 0) x = (float)((r.below(2) ? 1 : -1) * std::ldexp(r.unit() + 0.5, -(int)(127 + r.below(23)))); c.label("field:subnormals"); }
  std::vector<double> eb(s.n());
  static const double f[] = {0.1, 1, 0.5, 0.01, 0.001, 1e-4, 1e-6, 0};
  double base = f[c.draw(8)];
  int kind = c.weighted({3, 4, 3, 2});
  unsigned one_in = 1 + c.draw(20); Rng r(c.seed());
  static const char* names[] = {"constant", "log-uniform", "sparse-zero", "log-uniform+zero"};
  c.label(std::string("ebs:") + names[kind]);
  c.note("ebs %s base=%g 1/%u block=%d", names[kind], base, one_in, bs);
  size_t zeros = 0;
  for (size_t i = 0; i < s.n(); i++) {
    double lu = pow10i(-6 * r.unit());
    bool z = r.below(one_in) == 0;
    eb[i] = kind == 0 ? base : kind == 1 ? lu : kind == 2 ? (z ? 0 : base) : (z ? 0 : lu);
    zeros += a[i] == 0;
  }
  c.label(zeros == 0 ? "zeros:none" : zeros == s.n() ? "zeros:all" : "zeros:some");
  size_t sz = 0; double* leb = nullptr;
  unsigned char* p = sz_compress_2d_pwr_with_eb<float>(a.data(), eb.data(), &leb, s.r1, s.r2, sz, bs, c.chance(2));
  c.check(p != nullptr && sz > 0 && leb != nullptr, "no stream");
  unsigned char* q = exact_copy(p, sz); free(p);
  float* d = sz_decompress_2d_pwr_with_eb<float>(q, leb, s.r1, s.r2);
  free(q); free(leb);
  c.check(d != nullptr, "no array");
  size_t exact = 0;
  for (size_t i = 0; i < s.n(); i++) {
    if (a[i] == 0) { if (d[i] != 0) c.fail("value %zu: zero came back as %.9g", i, d[i]); continue; }
    if (std::fabs(a[i]) < FLT_MIN) {    // subnormal: no closer than the spacing of subnormal numbers
      double e = std::fabs((double)d[i] - (double)a[i]), slack = 3e-7 * (1 + std::fabs(std::log2(std::fabs((double)a[i]))));
      if (!(e <= (eb[i] + slack) * std::fabs((double)a[i]) + std::ldexp(1.0, -149))) c.fail("value %zu: %.9g came back as %.9g, bound %.9g", i, a[i], d[i], eb[i]);
      if (d[i] != 0 && std::signbit(d[i]) != std::signbit(a[i])) c.fail("value %zu: %.9g came back with the other sign %.9g", i, a[i], d[i]);
      continue;
    }
    if (d[i] == 0) c.fail("value %zu: %.9g (bound %g) came back as zero", i, a[i], eb[i]);
    if (std::signbit(d[i]) != std::signbit(a[i])) c.fail("value %zu: %.9g came back with the other sign %.9g", i, a[i], d[i]);
    if (same_bits(a[i], d[i])) { exact++; continue; }
    double slack = 3e-7 * (1 + std::fabs(std::log2(std::fabs((double)a[i]))));
    double e = std::fabs((double)d[i] - (double)a[i]) / std::fabs((double)a[i]);
    if (!(e <= eb[i] + slack)) c.fail("value %zu: %.9g came back as %.9g, relative error %.9g exceeds its bound %.9g", i, a[i], d[i], e, eb[i]);
  }
  free(d);
  c.nontrivial(s.n() >= 4 && exact + zeros < s.n());
}
int main(int argc, char** argv) {
  Check k{"C05", "random shape, field family and layout of relative bounds (including zeros); non-trivial when at least 4 values and at least one non-zero value not returned bit for bit", prop, 25000, 300000};
  k.assumptions = {"finite floats; subnormal values: the bound or the spacing of subnormal numbers, whichever is larger", "slack of 3e-7*(1+|log2 x|) for single-precision rounding of the logarithm"};
  return run_check(argc, argv, k);
}
