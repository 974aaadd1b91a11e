// C08: absolute-bound 2D compression keeps critical-point triangles bit for bit and creates none elsewhere.
#include "engine.hpp"
#include "cpgen.hpp"
#include "cporacle.hpp"
using namespace vp;

template <class T> static void go(Case& c) {
  static const int ids[] = {C2_ABS, C2_RELAX, C2_SZ3};
  const auto& k = codecs2<T>()[ids[c.draw(3)]];
  c.label(std::string("codec:") + k.name); c.note("%s", k.name);
  Shape2 s = gen_vshape2(c, size_cap(c, c.tier ? 20000 : 4000));
  VecOpts vo; vo.min_mag = 1e-15; vo.max_mag = 1e15; if (sizeof(T) == 8 && c.chance(3)) { vo.min_mag = 1e-55; vo.max_mag = 1e60; c.label("range:double"); }
  auto w = gen_vec<T>(c, 2, s.r1, s.r2, 1, vo);
  double eb = gen_vec_abs_eb(c, w);
  auto r = roundtrip2(c, k, w[0], w[1], s.r1, s.r2, eb);
  const LD m = sizeof(T) == 4 ? 1e-5L : 1e-11L;
  size_t with = 0, without = 0, border = 0, changed = 0;
  for (size_t i = 0; i < s.n(); i++) changed += !same_bits(w[0][i], r.U[i]) || !same_bits(w[1][i], r.V[i]);
  if (s.r1 > 1 && s.r2 > 1)
    for (size_t i = 0; i < s.n(); i++) if (w[0][i] == 0 && w[1][i] == 0 && (r.U[i] != 0 || r.V[i] != 0))
      c.fail("%s: the zero vector at (row %zu, col %zu) came back as (%.17g, %.17g)", k.name, i / s.r2, i % s.r2, (double)r.U[i], (double)r.V[i]);
  for (size_t i = 0; i + 1 < s.r1; i++) for (size_t j = 0; j + 1 < s.r2; j++) for (int t = 0; t < 2; t++) {
    size_t id[3]; tri_vertices(i, j, t, s.r2, id);
    LD u[3], v[3], du[3], dv[3];
    bool same = true;
    for (int q = 0; q < 3; q++) {
      u[q] = w[0][id[q]]; v[q] = w[1][id[q]]; du[q] = r.U[id[q]]; dv[q] = r.V[id[q]];
      same = same && same_bits(w[0][id[q]], r.U[id[q]]) && same_bits(w[1][id[q]], r.V[id[q]]);
    }
    int before = tri_has_cp(u, v, m);
    if (before == 1) {
      with++;
      if (!same) c.fail("%s: triangle (row %zu, col %zu, %s) contains a critical point, but its vertices changed: (%.9g,%.9g) (%.9g,%.9g) (%.9g,%.9g) became (%.9g,%.9g) (%.9g,%.9g) (%.9g,%.9g)", k.name, i, j, t ? "lower" : "upper",
        (double)u[0], (double)v[0], (double)u[1], (double)v[1], (double)u[2], (double)v[2], (double)du[0], (double)dv[0], (double)du[1], (double)dv[1], (double)du[2], (double)dv[2]);
    } else if (tri_cp_on_border(u, v)) {
      border++;
      if (!same) c.fail("%s: triangle (row %zu, col %zu, %s) contains a critical point on its border, but its vertices changed: (%.9g,%.9g) (%.9g,%.9g) (%.9g,%.9g) became (%.9g,%.9g) (%.9g,%.9g) (%.9g,%.9g)", k.name, i, j, t ? "lower" : "upper",
        (double)u[0], (double)v[0], (double)u[1], (double)v[1], (double)u[2], (double)v[2], (double)du[0], (double)dv[0], (double)du[1], (double)dv[1], (double)du[2], (double)dv[2]);
    } else if (before == 0 && !same) {
      without++;
      if (tri_has_cp(du, dv, m) == 1) c.fail("%s: triangle (row %zu, col %zu, %s) gained a critical point: (%.9g,%.9g) (%.9g,%.9g) (%.9g,%.9g) became (%.9g,%.9g) (%.9g,%.9g) (%.9g,%.9g)", k.name, i, j, t ? "lower" : "upper",
        (double)u[0], (double)v[0], (double)u[1], (double)v[1], (double)u[2], (double)v[2], (double)du[0], (double)dv[0], (double)du[1], (double)dv[1], (double)du[2], (double)dv[2]);
    }
  }
  c.label(with ? "cp:some" : "cp:none"); if (border && changed) c.label("cp:on a border");
  c.nontrivial(changed > 0 && without > 0 && (with > 0 || s.n() > 64));
}
static void prop(Case& c) { if (c.chance(2)) go<double>(c); else go<float>(c); }
int main(int argc, char** argv) {
  Check k{"C08", "random absolute-error variant, precision, shape, vector-field family and bound; non-trivial when values changed, at least one perturbed triangle without a critical point was judged, and a triangle with one exists (or the grid has more than 64 points)", prop, 30000, 500000};
  k.assumptions = {"non-zero magnitudes between 1e-15 and 1e15 (float) or 1e-55 and 1e60 (double), so that the products of components which decide about a critical point are representable", "triangles are judged only where the containment test is decided by a relative margin of 1e-5 (float) or 1e-11 (double) in exact-enough arithmetic, before and after"};
  return run_check(argc, argv, k);
}
