// C03: per-point absolute bounds (2D).
#include "engine.hpp"
#include "gen.hpp"
#include "oracle.hpp"
#include "sz_compress_3d.hpp"
#include "sz_decompress_3d.hpp"
using namespace vp;

template <class T> static void go(Case& c) {
  Shape2 s = gen_shape2(c, size_cap(c, c.tier ? 40000 : 8000), c.tier ? 400 : 130);
  int bs = c.weighted({5, 5, 1}) == 0 ? 12 : (int)c.range(2, c.chance(4) ? 64 : 16);
  double base = 0;
  std::vector<T> a;
  bool lattice = c.chance(8);
  if (lattice) a = gen_lattice<T>(c, s.r1, s.r2, 1, base);
  else a = gen_field<T>(c, s.r1, s.r2, 1);
  if (c.chance(12)) { a[c.draw(s.n())] = (T)-0.0; c.label("field:negative-zero"); }
  std::vector<double> eb(s.n());
  if (!lattice) base = gen_abs_eb(c, a, -7, 1);
  int kind = c.weighted({2, 2, 5, 5, 4, 4, 2});
  uint64_t sd = c.seed(); Rng r(sd);
  unsigned one_in = 1 + c.draw(20);
  double spread = (double)c.range(0, 8);
  size_t blk = 1 + r.below(9);
  static const char* names[] = {"constant", "all-zero", "sparse-zero", "log-uniform", "log-uniform+zero", "blocks", "zero-except-few"};
  c.label(std::string("ebs:") + names[kind]);
  c.note("ebs %s 1/%u spread=%g block=%d %s", names[kind], one_in, spread, bs, sizeof(T) == 4 ? "float" : "double");
  size_t zeros = 0;
  for (size_t i = 0; i < s.r1; i++) for (size_t j = 0; j < s.r2; j++) {
    double& e = eb[i * s.r2 + j];
    double lu = base * std::pow(10.0, spread * (r.unit() - 0.5));
    switch (kind) {
      case 0: e = base; break;
      case 1: e = 0; break;
      case 2: e = r.below(one_in) == 0 ? 0 : base; break;
      case 3: e = lu; break;
      case 4: e = r.below(one_in) == 0 ? 0 : lu; break;
      case 5: e = ((i / blk + j / blk) % 3 == 0) ? 0 : ((i / blk + j / blk) % 3 == 1) ? base : base * 1e4; break;
      case 6: e = r.below(one_in) == 0 ? lu : 0; break;
    }
    zeros += e == 0;
  }
  size_t sz = 0;
  unsigned char* p = sz_compress_2d_with_eb<T>(a.data(), eb.data(), s.r1, s.r2, sz, bs, c.chance(2));
  c.check(p != nullptr && sz > 0, "no stream");
  unsigned char* q = exact_copy(p, sz); free(p);
  T* d = sz_decompress_2d_with_eb<T>(q, eb.data(), s.r1, s.r2);
  free(q);
  c.check(d != nullptr, "no array");
  size_t exact = 0;
  for (size_t i = 0; i < s.n(); i++) {
    if (same_bits(a[i], d[i])) { exact++; continue; }
    if (eb[i] == 0) c.fail("value %zu with bound 0: original %.17g came back as %.17g", i, (double)a[i], (double)d[i]);
    double e = std::fabs((double)(d[i] - a[i]));
    if (!(e <= eb[i] * (1 + 1e-6))) c.fail("value %zu: original %.17g came back as %.17g, error %.9g exceeds its bound %.9g", i, (double)a[i], (double)d[i], e, eb[i]);
  }
  free(d);
  c.label(exact == s.n() ? "result:all-exact" : "result:quantised");
  c.nontrivial(s.n() >= 4 && exact < s.n() && kind != 0);
}
static void prop(Case& c) { if (c.chance(2)) go<double>(c); else go<float>(c); }
int main(int argc, char** argv) {
  Check k{"C03", "random precision, shape, field family, bound layout and block size; non-trivial when at least 4 values, bounds differ between points, and at least one value is not stored exactly", prop, 20000, 300000};
  k.assumptions = {"finite inputs with magnitude below max/64", "non-zero bounds: |decompressed-original| <= bound*(1+1e-6) in the data's own precision; zero bounds: bit equality"};
  return run_check(argc, argv, k);
}
