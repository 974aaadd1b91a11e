// C06: absolute bound for 2D vector fields (online_abs, relaxed, interpolation-based).
#include "engine.hpp"
#include "cpgen.hpp"
using namespace vp;

template <class T> static void go(Case& c) {
  static const int ids[] = {C2_ABS, C2_RELAX, C2_SZ3};
  const auto& k = codecs2<T>()[ids[c.draw(3)]];
  c.label(std::string("codec:") + k.name); c.note("%s", k.name);
  Shape2 s = gen_vshape2(c, size_cap(c, c.tier ? 30000 : 5000));
  VecOpts vo; vo.min_mag = 1e-43; vo.max_mag = 1e36; if (sizeof(T) == 8 && c.chance(3)) { vo.min_mag = 1e-300; vo.max_mag = 1e280; c.label("range:double"); }
  auto w = gen_vec<T>(c, 2, s.r1, s.r2, 1, vo);
  double eb = gen_vec_abs_eb(c, w);
  auto r = roundtrip2(c, k, w[0], w[1], s.r1, s.r2, eb, c.chance(8));
  size_t exact = check_component(c, w[0], r.U, ABS, eb, (std::string(k.name) + " U").c_str());
  exact += check_component(c, w[1], r.V, ABS, eb, (std::string(k.name) + " V").c_str());
  c.label(exact == 2 * s.n() ? "result:all-exact" : "result:quantised");
  c.nontrivial(s.n() >= 4 && exact < 2 * s.n());
}
static void prop(Case& c) { if (c.chance(2)) go<double>(c); else go<float>(c); }
int main(int argc, char** argv) {
  Check k{"C06", "random absolute-error variant, precision, shape, vector-field family and bound; non-trivial when at least 4 vectors and at least one component not stored bit for bit", prop, 30000, 600000};
  k.assumptions = {"non-zero magnitudes between 1e-43 and 1e36 (float) or 1e-300 and 1e280 (double)", "|decompressed-original| <= bound*(1+1e-6) in the data's own precision"};
  return run_check(argc, argv, k);
}
