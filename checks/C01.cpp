// C01: 2D absolute error bound.
#include "engine.hpp"
#include "gen.hpp"
#include "oracle.hpp"
#include "sz_compress_3d.hpp"
#include "sz_decompress_3d.hpp"
using namespace vp;

static void prop(Case& c) {
  Shape2 s = gen_shape2(c, size_cap(c, c.tier ? 60000 : 12000), c.tier ? 500 : 160);
  int bs = c.weighted({5, 5, 1}) == 0 ? 12 : (int)c.range(2, c.chance(4) ? 64 : 16);
  bool bi = c.chance(2);
  double eb;
  std::vector<float> a;
  if (c.chance(6)) a = gen_lattice<float>(c, s.r1, s.r2, 1, eb);
  else { a = gen_field<float>(c, s.r1, s.r2, 1); eb = gen_abs_eb(c, a, -8, 2); }
  c.note("block=%d", bs);
  size_t sz = 0;
  unsigned char* p = sz_compress_2d<float>(a.data(), s.r1, s.r2, eb, sz, bs, bi);
  c.check(p != nullptr && sz > 0, "no stream");
  unsigned char* q = exact_copy(p, sz); free(p);
  float* d = sz_decompress_2d<float>(q, s.r1, s.r2);
  free(q);
  size_t exact = check_abs(c, a.data(), d, s.n(), eb, "value");
  free(d);
  c.label(exact == s.n() ? "result:all-exact" : exact * 20 > s.n() ? "result:many-exact" : "result:quantised");
  c.nontrivial(s.n() >= 4 && exact < s.n());
}
int main(int argc, char** argv) {
  Check k{"C01", "random shape, field family, bound and block size; non-trivial when at least 4 values and at least one value is not stored exactly", prop, 20000, 300000};
  k.assumptions = {"finite inputs with magnitude below FLT_MAX/64", "a bound is honoured when |decompressed-original| <= bound*(1+1e-6) in single precision arithmetic"};
  return run_check(argc, argv, k);
}
