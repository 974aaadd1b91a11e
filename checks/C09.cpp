// C09: relative-bound 2D compression keeps where critical points are, and their type.
#include "engine.hpp"
#include "cpgen.hpp"
#include "cporacle.hpp"
using namespace vp;

template <class T> static void go(Case& c) {
  static const int ids[] = {C2_OFFLINE, C2_OFFLINE_LOG, C2_ONLINE, C2_ONLINE_LOG};
  const auto& k = codecs2<T>()[ids[c.draw(4)]];
  c.label(std::string("codec:") + k.name); c.note("%s", k.name);
  Shape2 s = gen_vshape2(c, size_cap(c, c.tier ? 20000 : 4000));
  VecOpts vo; vo.min_mag = 1e-9; vo.max_mag = 1e9; if (sizeof(T) == 8 && c.chance(3)) { vo.min_mag = 1e-55; vo.max_mag = 1e60; c.label("range:double"); }
  auto w = gen_vec<T>(c, 2, s.r1, s.r2, 1, vo);
  double eb = gen_rel_eb(c);
  auto r = roundtrip2(c, k, w[0], w[1], s.r1, s.r2, eb);
  const LD m = k.bound == LOG ? 1e-4L : sizeof(T) == 4 ? 2e-5L : 1e-10L, mt = k.bound == LOG ? 2e-4L : sizeof(T) == 4 ? 1e-4L : 1e-9L;
  size_t with = 0, without = 0, typed = 0, changed = 0, changed_cp = 0, border = 0;
  for (size_t i = 0; i < s.n(); i++) changed += !same_bits(w[0][i], r.U[i]) || !same_bits(w[1][i], r.V[i]);
  for (size_t i = 0; i + 1 < s.r1; i++) for (size_t j = 0; j + 1 < s.r2; j++) for (int t = 0; t < 2; t++) {
    size_t id[3]; tri_vertices(i, j, t, s.r2, id);
    LD u[3], v[3], du[3], dv[3];
    bool same = true;
    for (int q = 0; q < 3; q++) {
      u[q] = w[0][id[q]]; v[q] = w[1][id[q]]; du[q] = r.U[id[q]]; dv[q] = r.V[id[q]];
      same = same && same_bits(w[0][id[q]], r.U[id[q]]) && same_bits(w[1][id[q]], r.V[id[q]]);
    }
    int before = tri_has_cp(u, v, m);
    if (before < 0 && tri_cp_on_border(u, v)) { border++; before = 1; }
    if (before < 0) continue;
    with += before == 1; without += before == 0;
    if (same) continue;
    changed_cp += before == 1;
    int after = tri_has_cp(du, dv, m);
    if (after < 0) continue;
    const char* what = nullptr; int t0 = 0, t1 = 0;
    if (before != after) what = before ? "lost its critical point" : "gained a critical point";
    else if (before == 1) {
      t0 = tri_type(u, v, t, mt); t1 = tri_type(du, dv, t, mt);
      typed += t0 != T_UNCLEAR;
      if (t0 != T_UNCLEAR) c.label(std::string("type:") + cp_type_name(t0));
      if (t0 != T_UNCLEAR && t1 != T_UNCLEAR && t0 != t1) what = "changed the type of its critical point";
    }
    if (what) c.fail("%s: triangle (row %zu, col %zu, %s) %s (%s -> %s): (%.17g,%.17g) (%.17g,%.17g) (%.17g,%.17g) became (%.17g,%.17g) (%.17g,%.17g) (%.17g,%.17g)", k.name, i, j, t ? "lower" : "upper", what, cp_type_name(t0), cp_type_name(t1),
        (double)u[0], (double)v[0], (double)u[1], (double)v[1], (double)u[2], (double)v[2], (double)du[0], (double)dv[0], (double)du[1], (double)dv[1], (double)du[2], (double)dv[2]);
  }
  c.label(with ? (changed_cp ? "cp:perturbed" : "cp:all-exact") : "cp:none"); if (border && changed) c.label("cp:on a border");
  c.nontrivial(changed > 0 && (changed_cp > 0 || without > 64));
}
static void prop(Case& c) { if (c.chance(2)) go<double>(c); else go<float>(c); }
int main(int argc, char** argv) {
  Check k{"C09", "random relative-error triangular variant, precision, shape, vector-field family and bound; non-trivial when values changed and a triangle with a critical point was perturbed (or more than 64 triangles without one were judged)", prop, 30000, 500000};
  k.assumptions = {"non-zero magnitudes between 1e-9 and 1e9 (float) or 1e-55 and 1e60 (double), so that the products of components which decide about a critical point are representable", "triangles are judged only where presence (and type) are decided by a relative margin before and after: 1e-4 logarithmic, 2e-5 float, 1e-10 double (types: 2e-4, 1e-4, 1e-9)"};
  return run_check(argc, argv, k);
}
