// C12: regular-grid 3D compression keeps which tetrahedra contain critical points.
#include "engine.hpp"
#include "cpgen.hpp"
#include "cporacle.hpp"
using namespace vp;

// six tetrahedra per cube around its main diagonal; offsets along (slowest, middle, fastest) index
static const int TET[6][4][3] = {
  {{0,0,0},{0,0,1},{0,1,1},{1,1,1}}, {{0,0,0},{0,1,0},{0,1,1},{1,1,1}}, {{0,0,0},{0,0,1},{1,0,1},{1,1,1}},
  {{0,0,0},{1,0,0},{1,0,1},{1,1,1}}, {{0,0,0},{0,1,0},{1,1,0},{1,1,1}}, {{0,0,0},{1,0,0},{1,1,0},{1,1,1}}};

template <class T> static void go(Case& c) {
  int id = (int)c.draw(C3_COUNT);
  const auto& k = codecs3<T>()[id];
  c.label(std::string("codec:") + k.name); c.note("%s", k.name);
  Shape3 s = gen_vshape3(c, size_cap(c, c.tier ? 6000 : 1200));
  VecOpts vo; vo.min_mag = 1e-11; vo.max_mag = 1e12; if (sizeof(T) == 8 && c.chance(3)) { vo.min_mag = 1e-55; vo.max_mag = 1e60; c.label("range:double"); }
  auto w = gen_vec<T>(c, 3, s.r1, s.r2, s.r3, vo);
  double eb = k.bound == ABS ? gen_vec_abs_eb(c, w) : gen_rel_eb(c);
  auto r = roundtrip3(c, k, w[0], w[1], w[2], s.r1, s.r2, s.r3, eb);
  const LD m = id == C3_OFFLINE_LOG ? 2e-4L : k.bound == LOG || sizeof(T) == 4 ? 3e-5L : 1e-10L;
  size_t with = 0, border = 0, without = 0, kept = 0, changed = 0;
  for (size_t i = 0; i < s.n(); i++) changed += !same_bits(w[0][i], r.U[i]) || !same_bits(w[1][i], r.V[i]) || !same_bits(w[2][i], r.W[i]);
  for (size_t i = 0; i + 1 < s.r1; i++) for (size_t j = 0; j + 1 < s.r2; j++) for (size_t l = 0; l + 1 < s.r3; l++) for (int t = 0; t < 6; t++) {
    LD a[4][3], b[4][3]; bool same = true;
    for (int q = 0; q < 4; q++) {
      size_t x = ((i + TET[t][q][0]) * s.r2 + j + TET[t][q][1]) * s.r3 + l + TET[t][q][2];
      a[q][0] = w[0][x]; a[q][1] = w[1][x]; a[q][2] = w[2][x]; b[q][0] = r.U[x]; b[q][1] = r.V[x]; b[q][2] = r.W[x];
      same = same && same_bits(w[0][x], r.U[x]) && same_bits(w[1][x], r.V[x]) && same_bits(w[2][x], r.W[x]);
    }
    int before = tet_has_cp(a, m);
    if (before < 0 && tet_cp_on_border(a)) { border++; before = 1; }
    if (before < 0) continue;
    with += before == 1; kept += before == 1 && same; without += before == 0 && !same;
    if (same) continue;
    if (tet_has_cp(a, m) == 1) c.fail("%s: tetrahedron %d of cube (%zu,%zu,%zu) contains a critical point and its values changed: (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g) became (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g)", k.name, t, i, j, l,
        (double)a[0][0], (double)a[0][1], (double)a[0][2], (double)a[1][0], (double)a[1][1], (double)a[1][2], (double)a[2][0], (double)a[2][1], (double)a[2][2], (double)a[3][0], (double)a[3][1], (double)a[3][2],
        (double)b[0][0], (double)b[0][1], (double)b[0][2], (double)b[1][0], (double)b[1][1], (double)b[1][2], (double)b[2][0], (double)b[2][1], (double)b[2][2], (double)b[3][0], (double)b[3][1], (double)b[3][2]);
    int after = tet_has_cp(b, m);
    if (after < 0 || before == after) continue;
    c.fail("%s: tetrahedron %d of cube (%zu,%zu,%zu) %s a critical point: (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g) became (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g)", k.name, t, i, j, l, before ? "lost" : "gained",
        (double)a[0][0], (double)a[0][1], (double)a[0][2], (double)a[1][0], (double)a[1][1], (double)a[1][2], (double)a[2][0], (double)a[2][1], (double)a[2][2], (double)a[3][0], (double)a[3][1], (double)a[3][2],
        (double)b[0][0], (double)b[0][1], (double)b[0][2], (double)b[1][0], (double)b[1][1], (double)b[1][2], (double)b[2][0], (double)b[2][1], (double)b[2][2], (double)b[3][0], (double)b[3][1], (double)b[3][2]);
  }
  c.label(with ? "cp:some" : "cp:none"); if (border) c.label("cp:on a border");
  c.nontrivial(changed > 0 && (with > 0 || without > 64));
}
static void prop(Case& c) { if (c.chance(2)) go<double>(c); else go<float>(c); }
int main(int argc, char** argv) {
  Check k{"C12", "random regular-grid 3D variant, precision, shape, vector-field family and bound; non-trivial when values changed and a tetrahedron has a critical point (or more than 64 perturbed tetrahedra without one were judged)", prop, 50000, 800000};
  k.assumptions = {"non-zero magnitudes between 1e-11 and 1e12 (float) or 1e-55 and 1e60 (double), so that the products of components which decide about a critical point are representable", "tetrahedra are judged only where containment is decided by a relative margin before and after: 2e-4 decoupled, 3e-5 logarithmic or single precision, 1e-10 absolute double"};
  return run_check(argc, argv, k);
}
