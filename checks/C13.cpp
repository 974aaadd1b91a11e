// C13: compression on arbitrary tetrahedral meshes: relative bound, signs, zeros and critical points.
#include "engine.hpp"
#include "cpgen.hpp"
#include "cporacle.hpp"
using namespace vp;

struct Mesh { int n = 0; std::vector<int> tets; std::vector<double> pts; int m() const { return (int)tets.size() / 4; } };
static Mesh gen_mesh(Case& c, size_t cap, Shape3& s) {
  Mesh M;
  int kind = c.weighted({4, 4, 2, 1});
  static const char* names[] = {"grid", "random", "fans", "no-elements"};
  c.label(std::string("mesh:") + names[kind]);
  if (kind == 0) {
    s = gen_vshape3(c, size_cap(c, cap, 3000)); M.n = (int)s.n();
    static const int TET[6][4][3] = {{{0,0,0},{0,0,1},{0,1,1},{1,1,1}}, {{0,0,0},{0,1,0},{0,1,1},{1,1,1}}, {{0,0,0},{0,0,1},{1,0,1},{1,1,1}}, {{0,0,0},{1,0,0},{1,0,1},{1,1,1}}, {{0,0,0},{0,1,0},{1,1,0},{1,1,1}}, {{0,0,0},{1,0,0},{1,1,0},{1,1,1}}};
    bool shuffle = c.chance(2); Rng r(c.seed());
    std::vector<int> label(M.n); for (int i = 0; i < M.n; i++) label[i] = i;
    if (shuffle) for (int i = M.n - 1; i > 0; i--) std::swap(label[i], label[r.below(i + 1)]);
    unsigned drop = c.chance(4) ? 2 + (unsigned)c.draw(4) : 0;
    for (size_t i = 0; i + 1 < s.r1; i++) for (size_t j = 0; j + 1 < s.r2; j++) for (size_t l = 0; l + 1 < s.r3; l++) for (auto& t : TET) {
      if (drop && r.below(drop) == 0) continue;
      int v[4]; for (int q = 0; q < 4; q++) v[q] = label[(int)(((i + t[q][0]) * s.r2 + j + t[q][1]) * s.r3 + l + t[q][2])];
      if (shuffle) for (int q = 3; q > 0; q--) std::swap(v[q], v[r.below(q + 1)]);
      M.tets.insert(M.tets.end(), v, v + 4);
    }
  } else {
    M.n = 1 + (int)c.draw(c.chance(3) ? cap / 4 : 12);
    s = {1, 1, (size_t)M.n};
    int m = M.n < 4 || kind == 3 ? 0 : 1 + (int)c.draw(2 * M.n); Rng r(c.seed());
    for (int t = 0; t < m; t++) {
      int v[4];
      for (int q = 0; q < 4; q++) { again: v[q] = kind == 2 && q < 2 ? q : (int)r.below(M.n); for (int p = 0; p < q; p++) if (v[p] == v[q]) { goto again; } }
      if (kind == 2) for (int q = 3; q > 0; q--) std::swap(v[q], v[r.below(q + 1)]);
      M.tets.insert(M.tets.end(), v, v + 4);
    }
  }
  M.pts.resize(3 * M.n); Rng r(M.n); for (auto& x : M.pts) x = r.unit();
  c.note("mesh %s n=%d m=%d", names[kind], M.n, M.m());
  if (M.m() && M.m() <= 12) { std::string t; for (int x : M.tets) t += std::to_string(x) + ","; c.note("tets=%s", t.c_str()); }
  return M;
}

template <class T> static void go(Case& c) {
  Shape3 s; Mesh M = gen_mesh(c, c.tier ? 3000 : 800, s);
  VecOpts vo; vo.min_mag = 1e-11; vo.max_mag = 1e12; if (sizeof(T) == 8 && c.chance(3)) { vo.min_mag = 1e-55; vo.max_mag = 1e60; c.label("range:double"); }
  auto w = gen_vec<T>(c, 3, s.r1, s.r2, s.r3, vo);
  double eb = gen_rel_eb(c);
  int n = M.n;
  std::vector<T> data(3 * n), pts(3 * n);
  for (int i = 0; i < n; i++) for (int d = 0; d < 3; d++) { data[3 * i + d] = w[d][i]; pts[3 * i + d] = (T)M.pts[3 * i + d]; }
  size_t size = 0;
  int none[4] = {0, 0, 0, 0}; const int* ti = M.tets.empty() ? none : M.tets.data();
  unsigned char* p = sz_compress_cp_preserve_3d_unstructured<T>(n, pts.data(), data.data(), M.m(), ti, size, eb);
  if (!p || !size) c.fail("no stream");
  unsigned char* q = exact_copy(p, size); free(p);
  T* out = nullptr;
  sz_decompress_cp_preserve_3d_unstructured<T>(q, n, pts.data(), M.m(), ti, out);
  free(q);
  if (!out) c.fail("no array");
  std::vector<T> d(out, out + 3 * n); free(out);
  size_t exact = check_component(c, data, d, LOG, eb, "component");
  size_t with = 0, border = 0, without = 0;
  for (int t = 0; t < M.m(); t++) {
    LD a[4][3], b[4][3]; bool same = true;
    for (int q = 0; q < 4; q++) for (int k = 0; k < 3; k++) {
      size_t x = 3 * (size_t)M.tets[4 * t + q] + k; a[q][k] = data[x]; b[q][k] = d[x]; same = same && same_bits(data[x], d[x]);
    }
    int before = tet_has_cp(a, 1e-4L);
    if (before < 0 && tet_cp_on_border(a)) { border++; before = 1; }
    if (before < 0) continue;
    with += before == 1; without += before == 0 && !same;
    if (same) continue;
    if (tet_has_cp(a, 1e-4L) == 1) c.fail("tetrahedron %d (%d,%d,%d,%d) contains a critical point and its values changed: (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g) became (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g)", t, M.tets[4 * t], M.tets[4 * t + 1], M.tets[4 * t + 2], M.tets[4 * t + 3],
        (double)a[0][0], (double)a[0][1], (double)a[0][2], (double)a[1][0], (double)a[1][1], (double)a[1][2], (double)a[2][0], (double)a[2][1], (double)a[2][2], (double)a[3][0], (double)a[3][1], (double)a[3][2],
        (double)b[0][0], (double)b[0][1], (double)b[0][2], (double)b[1][0], (double)b[1][1], (double)b[1][2], (double)b[2][0], (double)b[2][1], (double)b[2][2], (double)b[3][0], (double)b[3][1], (double)b[3][2]);
    int after = tet_has_cp(b, 1e-4L);
    if (after < 0 || before == after) continue;
    c.fail("tetrahedron %d (%d,%d,%d,%d) %s a critical point: (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g) became (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g) (%.17g,%.17g,%.17g)", t, M.tets[4 * t], M.tets[4 * t + 1], M.tets[4 * t + 2], M.tets[4 * t + 3], before ? "lost" : "gained",
        (double)a[0][0], (double)a[0][1], (double)a[0][2], (double)a[1][0], (double)a[1][1], (double)a[1][2], (double)a[2][0], (double)a[2][1], (double)a[2][2], (double)a[3][0], (double)a[3][1], (double)a[3][2],
        (double)b[0][0], (double)b[0][1], (double)b[0][2], (double)b[1][0], (double)b[1][1], (double)b[1][2], (double)b[2][0], (double)b[2][1], (double)b[2][2], (double)b[3][0], (double)b[3][1], (double)b[3][2]);
  }
  c.label(with ? "cp:some" : "cp:none"); if (border) c.label("cp:on a border"); c.label(exact == d.size() ? "result:all-exact" : "result:quantised");
  c.nontrivial(exact < d.size() && (with > 0 || without > 4));
}
static void prop(Case& c) { if (c.chance(2)) go<double>(c); else go<float>(c); }
int main(int argc, char** argv) {
  Check k{"C13", "random tetrahedral mesh (grid with shuffled labels and vertex order, random elements, fans, no elements), vector data, precision and relative bound; non-trivial when values changed and a tetrahedron has a critical point (or more than 4 perturbed ones without)", prop, 30000, 500000};
  k.assumptions = {"non-zero magnitudes between 1e-11 and 1e12 (float) or 1e-55 and 1e60 (double), so that the products of components which decide about a critical point are representable", "tetrahedra are judged only where containment is decided by a relative margin of 1e-4 before and after", "logarithmic slack of 3e-7*(1+|log2 x|)", "each element lists four distinct vertices"};
  return run_check(argc, argv, k);
}
