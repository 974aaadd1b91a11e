// C10: bilinear compression keeps the number and the types of critical points in every quadrilateral cell.
#include "engine.hpp"
#include "cpgen.hpp"
#include "cporacle.hpp"
using namespace vp;

struct Roots { int n = 0; int type[2]; bool clear = true; };
// Critical points of the bilinear interpolant on one cell; corners a(i,j) b(i,j+1) c(i+1,j+1) d(i+1,j), x along the column index.
// clear is false when a relative margin does not separate presence, location or number.
// d: least discriminant (squared determinant of the Jacobian at the roots, corners scaled to 1) for which rounding moves roots by less than m.
static Roots solve(const LD u[4], const LD v[4], LD m, LD d) {
  Roots R;
  LD su = 0, sv = 0; for (int k = 0; k < 4; k++) { su = std::max(su, std::fabs(u[k])); sv = std::max(sv, std::fabs(v[k])); }
  if (!(su > 0) || !(sv > 0)) { R.clear = false; return R; }
  // no critical point when a component keeps its sign on all corners
  for (int w = 0; w < 2; w++) {
    const LD* f = w ? v : u; LD s = w ? sv : su; int p = 0, n = 0;
    for (int k = 0; k < 4; k++) { p += f[k] > m * s; n += f[k] < -m * s; }
    if (p == 4 || n == 4) return R;
  }
  LD A[2], B[2], C[2], D[2];
  for (int w = 0; w < 2; w++) { const LD* f = w ? v : u; LD s = w ? sv : su; LD a = f[0] / s, b = f[1] / s, c = f[2] / s, d = f[3] / s; A[w] = a - b - d + c; B[w] = b - a; C[w] = d - a; D[w] = a; }
  LD q2 = C[0] * A[1] - C[1] * A[0], q1 = C[0] * B[1] + D[0] * A[1] - C[1] * B[0] - D[1] * A[0], q0 = D[0] * B[1] - D[1] * B[0];
  LD disc = q1 * q1 - 4 * q2 * q0, ds = q1 * q1 + 4 * std::fabs(q2 * q0);
  LD qs = std::max(std::fabs(q2), std::max(std::fabs(q1), std::fabs(q0)));
  // coefficients carry rounding relative to the corners (scaled to 1), not to themselves
  if (!(qs > m) || !(std::fabs(disc) > m * ds) || !(std::fabs(disc) > d * std::max<LD>(qs, 1))) { R.clear = false; return R; }
  if (disc < 0) return R;
  LD q = -(q1 + (q1 < 0 ? -1 : 1) * std::sqrt(disc)) / 2;
  LD ys[2]; bool inf[2] = {false, false};
  if (std::fabs(q2) > m * qs) ys[0] = q / q2; else { inf[0] = true; ys[0] = 0; if (std::fabs(q) < 4 * std::fabs(q2)) { R.clear = false; return R; } }
  if (std::fabs(q) > m * qs) ys[1] = q0 / q; else { R.clear = false; return R; }
  for (int r = 0; r < 2; r++) {
    if (inf[r]) continue;
    LD y = ys[r];
    if (y < -m || y > 1 + m) continue;
    LD d0 = A[0] * y + B[0], d1 = A[1] * y + B[1], x;
    if (std::fabs(d0) >= std::fabs(d1)) x = -(C[0] * y + D[0]) / d0; else x = -(C[1] * y + D[1]) / d1;
    if (!(std::max(std::fabs(d0), std::fabs(d1)) > m)) { R.clear = false; return R; }
    if (x < -m || x > 1 + m) continue;
    if (x < m || x > 1 - m || y < m || y > 1 - m) { R.clear = false; return R; }
    LD ux = (A[0] * y + B[0]) * su, uy = (A[0] * x + C[0]) * su, vx = (A[1] * y + B[1]) * sv, vy = (A[1] * x + C[1]) * sv;
    R.type[R.n++] = jac_type(ux, uy, vx, vy, su, sv, m);
  }
  if (R.n == 2 && R.type[0] > R.type[1]) std::swap(R.type[0], R.type[1]);
  return R;
}

template <class T> static void go(Case& c) {
  const auto& k = codecs2<T>()[C2_BILINEAR];
  Shape2 s = gen_vshape2(c, size_cap(c, c.tier ? 12000 : 3000));
  VecOpts vo; vo.min_mag = 1e-9; vo.max_mag = 1e9; if (sizeof(T) == 8 && c.chance(3)) { vo.min_mag = 1e-55; vo.max_mag = 1e60; c.label("range:double"); }
  auto w = gen_vec<T>(c, 2, s.r1, s.r2, 1, vo);
  double eb = gen_rel_eb(c);
  auto r = roundtrip2(c, k, w[0], w[1], s.r1, s.r2, eb);
  const LD m = 1e-3L, dm = sizeof(T) == 4 ? 1e-4L : 1e-9L;
  size_t with = 0, changed_with = 0, judged = 0, two = 0;
  for (size_t i = 0; i + 1 < s.r1; i++) for (size_t j = 0; j + 1 < s.r2; j++) {
    size_t id[4] = {i * s.r2 + j, i * s.r2 + j + 1, (i + 1) * s.r2 + j + 1, (i + 1) * s.r2 + j};
    LD u[4], v[4], du[4], dv[4]; bool same = true;
    for (int q = 0; q < 4; q++) {
      u[q] = w[0][id[q]]; v[q] = w[1][id[q]]; du[q] = r.U[id[q]]; dv[q] = r.V[id[q]];
      same = same && same_bits(w[0][id[q]], r.U[id[q]]) && same_bits(w[1][id[q]], r.V[id[q]]);
    }
    if (same) continue;
    Roots a = solve(u, v, m, dm);
    if (!a.clear) continue;
    judged++; with += a.n > 0; two += a.n == 2;
    Roots b = solve(du, dv, m, dm);
    if (!b.clear) continue;
    changed_with += a.n > 0;
    const char* what = nullptr;
    if (a.n != b.n) what = "changed the number of its critical points";
    else {
      bool known = true; for (int t = 0; t < a.n; t++) known = known && a.type[t] != T_UNCLEAR && b.type[t] != T_UNCLEAR;
      if (known) for (int t = 0; t < a.n; t++) { c.label(std::string("type:") + cp_type_name(a.type[t])); if (a.type[t] != b.type[t]) what = "changed the type of a critical point"; }
    }
    if (what) c.fail("bilinear: cell (row %zu, col %zu) %s (%d: %s %s -> %d: %s %s): (%.17g,%.17g) (%.17g,%.17g) (%.17g,%.17g) (%.17g,%.17g) became (%.17g,%.17g) (%.17g,%.17g) (%.17g,%.17g) (%.17g,%.17g)", i, j, what,
        a.n, a.n > 0 ? cp_type_name(a.type[0]) : "-", a.n > 1 ? cp_type_name(a.type[1]) : "-", b.n, b.n > 0 ? cp_type_name(b.type[0]) : "-", b.n > 1 ? cp_type_name(b.type[1]) : "-",
        (double)u[0], (double)v[0], (double)u[1], (double)v[1], (double)u[2], (double)v[2], (double)u[3], (double)v[3], (double)du[0], (double)dv[0], (double)du[1], (double)dv[1], (double)du[2], (double)dv[2], (double)du[3], (double)dv[3]);
  }
  c.label(changed_with ? (two ? "cp:perturbed, cells with two" : "cp:perturbed") : with ? "cp:unclear" : "cp:none perturbed");
  c.nontrivial(changed_with > 0 || judged > 64);
}
static void prop(Case& c) { if (c.chance(2)) go<double>(c); else go<float>(c); }
int main(int argc, char** argv) {
  Check k{"C10", "random precision, shape, vector-field family and relative bound; non-trivial when a perturbed cell with a critical point was judged before and after, or more than 64 perturbed cells were judged", prop, 30000, 500000};
  k.assumptions = {"non-zero magnitudes between 1e-9 and 1e9 (float) or 1e-55 and 1e60 (double), so that the products of components which decide about a critical point are representable", "cells are judged only where the number, location and type of their critical points are decided by a relative margin of 1e-3 before and after"};
  return run_check(argc, argv, k);
}
