// Independent critical-point oracle for piecewise-linear fields, in long double with robustness margins.
#pragma once
#include "engine.hpp"
#include <cmath>
#include <vector>
#include <algorithm>
namespace vp {
typedef long double LD;

// 1: contains a critical point for sure, 0: contains none for sure, -1: too close to call
inline int tri_has_cp(const LD u[3], const LD v[3], LD m) {
  LD t[6] = {u[2] * v[0], u[0] * v[2], u[1] * v[2], u[2] * v[1], u[0] * v[1], u[1] * v[0]};
  LD S = 0; for (LD x : t) S = std::max(S, std::fabs(x));
  if (!(S > 0) || !std::isfinite(S)) return -1;
  LD M[3] = {t[0] - t[1], t[2] - t[3], t[4] - t[5]};
  int p = 0, n = 0;
  for (LD x : M) { if (x > m * S) p++; else if (x < -m * S) n++; }
  if (p && n) return 0;
  if (p == 3 || n == 3) return 1;
  return -1;
}
// Critical points exactly on the border of a cell.  Only for values that are small whole multiples of a common power of
// two, so that every determinant is exact, here and in any precision the library may use.
inline bool small_multiples(const LD* x, int n, LD lim) {
  LD m = 0; for (int i = 0; i < n; i++) m = std::max(m, std::fabs(x[i]));
  if (!(m > 0)) return false;
  LD unit = std::ldexp((LD)1, std::ilogb(m)) * 2 / lim;
  for (int i = 0; i < n; i++) if (x[i] / unit != std::floor(x[i] / unit)) return false;
  return true;
}
inline bool tri_cp_on_border(const LD u[3], const LD v[3]) {
  if (!small_multiples(u, 3, 1024) || !small_multiples(v, 3, 1024)) return false;
  LD M[3] = {u[2] * v[0] - u[0] * v[2], u[1] * v[2] - u[2] * v[1], u[0] * v[1] - u[1] * v[0]};
  int p = 0, n = 0; for (LD x : M) { p += x > 0; n += x < 0; }
  return p + n > 0 && p + n < 3 && !(p && n);
}
enum CpType { T_UNCLEAR, T_SADDLE, T_NODE_ATT, T_NODE_REP, T_FOCUS_ATT, T_FOCUS_REP };
inline const char* cp_type_name(int t) { static const char* n[] = {"unclear", "saddle", "attracting node", "repelling node", "attracting focus", "repelling focus"}; return n[t]; }
// type from a Jacobian; Su, Sv: size of the entries before cancellation
inline int jac_type(LD ux, LD uy, LD vx, LD vy, LD Su, LD Sv, LD m) {
  LD det = ux * vy - uy * vx, tr = ux + vy, St = Su + Sv;
  LD Sd = Su * Sv, disc = tr * tr - 4 * det, SD = St * St + 4 * Sd;
  if (!(St > 0) || !std::isfinite(SD)) return T_UNCLEAR;
  if (!(std::fabs(det) > m * Sd)) return T_UNCLEAR;
  if (det < 0) return T_SADDLE;
  if (!(std::fabs(disc) > m * SD) || !(std::fabs(tr) > m * St)) return T_UNCLEAR;
  if (disc > 0) return tr < 0 ? T_NODE_ATT : T_NODE_REP;
  return tr < 0 ? T_FOCUS_ATT : T_FOCUS_REP;
}
// triangle k of quad (i,j): k=0 {(i,j),(i+1,j),(i+1,j+1)}, k=1 {(i,j),(i,j+1),(i+1,j+1)}; x along the column index
inline void tri_vertices(size_t i, size_t j, int k, size_t r2, size_t idx[3]) {
  idx[0] = i * r2 + j; idx[1] = k == 0 ? (i + 1) * r2 + j : i * r2 + j + 1; idx[2] = (i + 1) * r2 + j + 1;
}
inline int tri_type(const LD u[3], const LD v[3], int k, LD m) {
  LD a = 0, b = 0;
  for (int q = 0; q < 3; q++) { a = std::max(a, std::fabs(u[q])); b = std::max(b, std::fabs(v[q])); }
  LD ux, uy, vx, vy;
  if (k == 0) { uy = u[1] - u[0]; ux = u[2] - u[1]; vy = v[1] - v[0]; vx = v[2] - v[1]; }
  else { ux = u[1] - u[0]; uy = u[2] - u[1]; vx = v[1] - v[0]; vy = v[2] - v[1]; }
  return jac_type(ux, uy, vx, vy, a, b, m);
}
// tetrahedron: barycentric weights of the origin are proportional to four 3x3 determinants with alternating sign
inline LD det3(const LD* a, const LD* b, const LD* c, LD& S) {
  LD t[6] = {a[0] * b[1] * c[2], a[1] * b[2] * c[0], a[2] * b[0] * c[1], a[2] * b[1] * c[0], a[1] * b[0] * c[2], a[0] * b[2] * c[1]};
  for (LD x : t) S = std::max(S, std::fabs(x));
  return t[0] + t[1] + t[2] - t[3] - t[4] - t[5];
}
inline int tet_has_cp(const LD p[4][3], LD m) {
  LD S = 0, M[4];
  M[0] = det3(p[1], p[2], p[3], S); M[1] = -det3(p[0], p[2], p[3], S); M[2] = det3(p[0], p[1], p[3], S); M[3] = -det3(p[0], p[1], p[2], S);
  if (!(S > 0) || !std::isfinite(S)) return -1;
  int pos = 0, neg = 0;
  for (LD x : M) { if (x > m * S) pos++; else if (x < -m * S) neg++; }
  if (pos && neg) return 0;
  if (pos == 4 || neg == 4) return 1;
  return -1;
}
inline bool tet_cp_on_border(const LD p[4][3]) {
  LD t[4]; for (int d = 0; d < 3; d++) { for (int q = 0; q < 4; q++) t[q] = p[q][d]; if (!small_multiples(t, 4, 128)) return false; }
  LD S = 0, M[4];
  M[0] = det3(p[1], p[2], p[3], S); M[1] = -det3(p[0], p[2], p[3], S); M[2] = det3(p[0], p[1], p[3], S); M[3] = -det3(p[0], p[1], p[2], S);
  int pos = 0, neg = 0; for (LD x : M) { pos += x > 0; neg += x < 0; }
  return pos + neg > 0 && pos + neg < 4 && !(pos && neg);
}
}  // namespace vp
