// C11: absolute / relative bounds, signs and zeros for the regular-grid 3D vector-field variants.
#include "engine.hpp"
#include "cpgen.hpp"
using namespace vp;

template <class T> static void go(Case& c) {
  const auto& k = codecs3<T>()[c.draw(C3_COUNT)];
  c.label(std::string("codec:") + k.name); c.note("%s", k.name);
  Shape3 s = gen_vshape3(c, size_cap(c, c.tier ? 8000 : 1500));
  VecOpts vo; vo.min_mag = 1.2e-38; vo.max_mag = 1e36; if (sizeof(T) == 8 && c.chance(3)) { vo.min_mag = 1e-55; vo.max_mag = 1e280; c.label("range:double"); }
  auto w = gen_vec<T>(c, 3, s.r1, s.r2, s.r3, vo);
  double eb = k.bound == ABS ? gen_vec_abs_eb(c, w) : gen_rel_eb(c);
  auto r = roundtrip3(c, k, w[0], w[1], w[2], s.r1, s.r2, s.r3, eb, c.chance(8));
  size_t exact = check_component(c, w[0], r.U, k.bound, eb, (std::string(k.name) + " U").c_str());
  exact += check_component(c, w[1], r.V, k.bound, eb, (std::string(k.name) + " V").c_str());
  exact += check_component(c, w[2], r.W, k.bound, eb, (std::string(k.name) + " W").c_str());
  c.label(exact == 3 * s.n() ? "result:all-exact" : "result:quantised");
  c.nontrivial(s.n() >= 4 && exact < 3 * s.n());
}
static void prop(Case& c) { if (c.chance(2)) go<double>(c); else go<float>(c); }
int main(int argc, char** argv) {
  Check k{"C11", "random regular-grid 3D variant, precision, shape, vector-field family and bound; non-trivial when at least 4 vectors and at least one component not returned bit for bit", prop, 35000, 600000};
  k.assumptions = {"non-zero magnitudes between 1.2e-38 and 1e36 (float) or 1e-55 and 1e280 (double): the logarithmic variants keep everything below 2^-190 for the mark for zero", "logarithmic variants: slack of 3e-7*(1+|log2 x|) for single-precision logarithms"};
  return run_check(argc, argv, k);
}
