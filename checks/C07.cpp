// C07: relative bound, signs and zeros for 2D vector fields (decoupled and coupled, linear and log, triangular and bilinear).
#include "engine.hpp"
#include "cpgen.hpp"
using namespace vp;

template <class T> static void go(Case& c) {
  static const int ids[] = {C2_OFFLINE, C2_OFFLINE_LOG, C2_ONLINE, C2_ONLINE_LOG, C2_BILINEAR};
  const auto& k = codecs2<T>()[ids[c.draw(5)]];
  c.label(std::string("codec:") + k.name); c.note("%s", k.name);
  Shape2 s = gen_vshape2(c, size_cap(c, c.tier ? 30000 : 4000));
  VecOpts vo; vo.min_mag = 1.2e-38; vo.max_mag = 1e36; if (sizeof(T) == 8 && c.chance(3)) { vo.min_mag = 1e-55; vo.max_mag = 1e280; c.label("range:double"); }
  auto w = gen_vec<T>(c, 2, s.r1, s.r2, 1, vo);
  double eb = gen_rel_eb(c);
  auto r = roundtrip2(c, k, w[0], w[1], s.r1, s.r2, eb, c.chance(8));
  size_t exact = check_component(c, w[0], r.U, k.bound, eb, (std::string(k.name) + " U").c_str());
  exact += check_component(c, w[1], r.V, k.bound, eb, (std::string(k.name) + " V").c_str());
  c.label(exact == 2 * s.n() ? "result:all-exact" : "result:quantised");
  c.nontrivial(s.n() >= 4 && exact < 2 * s.n());
}
static void prop(Case& c) { if (c.chance(2)) go<double>(c); else go<float>(c); }
int main(int argc, char** argv) {
  Check k{"C07", "random relative-error variant, precision, shape, vector-field family and bound; non-trivial when at least 4 vectors and at least one component not returned bit for bit", prop, 30000, 600000};
  k.assumptions = {"non-zero magnitudes between 1.2e-38 and 1e36 (float) or 1e-55 and 1e280 (double): the logarithmic variants keep everything below 2^-190 for the mark for zero, and a bound takes at most 1024 powers of two", "logarithmic variants: slack of 3e-7*(1+|log2 x|) for single-precision logarithms"};
  return run_check(argc, argv, k);
}
