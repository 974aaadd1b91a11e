// C02: 3D absolute error bound.
#include "engine.hpp"
#include "gen.hpp"
#include "oracle.hpp"
#include "sz_compress_3d.hpp"
#include "sz_decompress_3d.hpp"
using namespace vp;

template <class T> static void go(Case& c) {
  Shape3 s = gen_shape3(c, size_cap(c, c.tier ? 60000 : 9000), c.tier ? 60 : 36);
  int bs = c.weighted({5, 5, 1}) == 0 ? 8 : (int)c.range(2, c.chance(4) ? 40 : 12);
  bool bi = c.chance(2);
  double eb;
  std::vector<T> a;
  if (c.chance(6)) a = gen_lattice<T>(c, s.r1, s.r2, s.r3, eb);
  else { a = gen_field<T>(c, s.r1, s.r2, s.r3); eb = gen_abs_eb(c, a, -8, 2); }
  c.note("block=%d independent=%d %s", bs, bi, sizeof(T) == 4 ? "float" : "double");
  c.label(bi ? "mode:independent" : "mode:dependent");
  c.label(sizeof(T) == 4 ? "type:float" : "type:double");
  size_t sz = 0;
  unsigned char* p = sz_compress_3d<T>(a.data(), s.r1, s.r2, s.r3, eb, sz, bs, bi);
  c.check(p != nullptr && sz > 0, "no stream");
  unsigned char* q = exact_copy(p, sz); free(p);
  T* d = sz_decompress_3d<T>(q, s.r1, s.r2, s.r3);
  free(q);
  size_t exact = check_abs(c, a.data(), d, s.n(), eb, "value");
  free(d);
  c.label(exact == s.n() ? "result:all-exact" : exact * 20 > s.n() ? "result:many-exact" : "result:quantised");
  c.nontrivial(s.n() >= 4 && exact < s.n());
}
static void prop(Case& c) { if (c.chance(2)) go<double>(c); else go<float>(c); }
int main(int argc, char** argv) {
  Check k{"C02", "random precision, shape, field family, bound, block size and block mode; non-trivial when at least 4 values and at least one value is not stored exactly", prop, 6000, 60000};
  k.assumptions = {"finite inputs with magnitude below max/64", "a bound is honoured when |decompressed-original| <= bound*(1+1e-6) in the data's own precision"};
  return run_check(argc, argv, k);
}
