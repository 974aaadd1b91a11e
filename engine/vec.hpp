// Vector-field generators (2 or 3 components on a regular grid, row-major, x along the fastest index).
#pragma once
#include "gen.hpp"
#include <array>
namespace vp {

struct VecOpts {
  bool zeros = true;
  double min_mag = 1e-12, max_mag = 1e12;   // non-zero magnitudes are forced into this range (products must be representable)
  bool extreme_scale = true;
};

inline void clamp_mag(double& x, double lo, double hi) {
  if (x == 0) return;
  if (!(std::fabs(x) <= hi)) x = x < 0 ? -hi : hi;
  if (std::fabs(x) < lo) x = x < 0 ? -lo : lo;
}

// D components over an r1 x r2 x r3 grid (r3==1 and D==2 for planar fields)
template <class T>
std::vector<std::vector<T>> gen_vec(Case& c, int D, size_t r1, size_t r2, size_t r3, const VecOpts& o = VecOpts()) {
  size_t n = r1 * r2 * r3;
  std::vector<std::vector<double>> w(D, std::vector<double>(n, 0.0));
  std::vector<std::vector<T>> out(D, std::vector<T>(n));
  static const char* names[] = {"linear-flow", "centres", "sines", "noise", "lattice", "logwide", "stream", "gradient", "smooth+noise", "independent", "explicit", "patchwork"};
  bool strip = std::max({r1, r2, r3}) >= 60 && (D == 2 ? std::min(r1, r2) : std::min({std::max(r1, r2), std::max(r1, r3), std::max(r2, r3)})) <= 4;
  int kind = c.weighted({5, 5, 4, strip ? 40 : 4, 3, strip ? 12 : 2, 3, 3, 3, 3, n <= 30 ? 22 : 0, n > 9 ? 10 : 2});   // in a strip few cells share a point, so noise puts each cell to the test
  auto at = [&](size_t i, size_t p[3]) { p[2] = i % r3; p[1] = (i / r3) % r2; p[0] = i / (r3 * r2); };
  // physical coordinates: planar: x = column (index along r2), y = row; spatial: x fastest
  auto pos = [&](size_t i, double X[3]) {
    size_t p[3]; at(i, p);
    if (D == 2) { X[0] = (double)p[1]; X[1] = (double)p[0]; X[2] = 0; }
    else { X[0] = (double)p[2]; X[1] = (double)p[1]; X[2] = (double)p[0]; }
  };
  double L[3] = {(double)(D == 2 ? r2 : r3), (double)(D == 2 ? r1 : r2), (double)r1};
  if (kind == 10) {
    static const double sp[] = {1, -1, 2, -2, 0.5, -0.5, 3, -3, 0, 10, -10, 0.1, -0.1, 100, 1e-3, -1e-3};
    for (int d = 0; d < D; d++) for (size_t i = 0; i < n; i++) {
      int k = c.weighted({4, 3, 4});
      w[d][i] = k == 0 ? sp[c.draw(16)] : k == 1 ? (double)c.range(-4, 4) : (c.unit() * 2 - 1) * pow10i((double)c.range(-2, 2));
    }
  } else if (kind == 9) {
    for (int d = 0; d < D; d++) {
      FieldOpts fo; fo.allow_extreme = false; fo.zeros = o.zeros;
      auto f = gen_field<double>(c, r1, r2, r3, fo);
      for (size_t i = 0; i < n; i++) w[d][i] = f[i];
    }
  } else {
    uint64_t sd = c.seed(); Rng r(sd);
    double A[3][3], cen[3], amp[4];
    bool outside = r.below(3) == 0;
    for (int a = 0; a < 3; a++) { cen[a] = (outside ? -0.5 + 2 * r.unit() : r.unit()) * (L[a] - 1); for (int b = 0; b < 3; b++) A[a][b] = r.sym(); }
    if (r.below(3) == 0) { A[0][1] = -A[1][0]; A[0][0] = A[1][1] = (r.below(2) ? 0.05 : -0.05) * r.unit(); }   // near-centre / focus
    if (r.below(4) == 0) { A[0][1] = A[1][0] = 0.1 * r.sym(); A[1][1] = A[0][0] * (1 + 0.3 * r.sym()); }        // node
    if (r.below(5) == 0) for (auto& row : A) for (auto& x : row) if (r.below(3) == 0) x = 0;                        // components independent of some coordinate
    for (auto& x : amp) x = r.sym();
    double k[3][3], ph[3][3];
    double wl = r.unit() < 0.5 ? 1.0 : 4.0;
    for (auto& row : k) for (auto& x : row) x = r.sym() * wl;
    if (r.below(5) == 0) for (auto& row : k) for (auto& x : row) if (r.below(3) == 0) x = 0;
    for (auto& row : ph) for (auto& x : row) x = r.unit() * 6.3;
    const int NC = 1 + (int)r.below(6);
    struct Cen { double p[3], s, rot, rad; }; std::vector<Cen> cs;
    for (int j = 0; j < NC; j++) { Cen q; for (int a = 0; a < 3; a++) q.p[a] = r.unit() * (L[a] - 1); q.s = 0.7 + r.unit() * (std::max(L[0], L[1]) * 0.3); q.rot = r.sym(); q.rad = r.sym(); cs.push_back(q); }
    int blk = 2 + (int)r.below(6); bool wide = r.below(4) == 0; uint64_t bs = r.next();
    double noise = std::pow(10.0, -4 + 4 * r.unit()); double dir[3] = {r.sym(), r.sym(), r.sym()};
    for (size_t i = 0; i < n; i++) {
      double X[3]; pos(i, X);
      double f[3] = {0, 0, 0};
      auto S = [&](int d) { double v = 0; for (int a = 0; a < D; a++) v += k[d][a] * X[a]; return std::sin(v + ph[d][0]) + 0.4 * std::cos(0.5 * v + k[d][(d + 1) % D] * X[(d + 1) % D] + ph[d][1]); };
      switch (kind) {
        case 0: for (int d = 0; d < D; d++) for (int a = 0; a < D; a++) f[d] += A[d][a] * (X[a] - cen[a]); break;
        case 1: for (auto& q : cs) {
            double rr = 0; for (int a = 0; a < D; a++) rr += (X[a] - q.p[a]) * (X[a] - q.p[a]);
            double g = std::exp(-rr / (2 * q.s * q.s));
            f[0] += g * (-q.rot * (X[1] - q.p[1]) + q.rad * (X[0] - q.p[0])); f[1] += g * (q.rot * (X[0] - q.p[0]) + q.rad * (X[1] - q.p[1]));
            if (D == 3) f[2] += g * (-q.rad * (X[2] - q.p[2]) + 0.3 * q.rot * (X[0] - q.p[0]));
          } for (int d = 0; d < D; d++) f[d] += 0.05 * dir[d]; break;
        case 2: for (int d = 0; d < D; d++) f[d] = S(d); break;
        case 3: for (int d = 0; d < D; d++) f[d] = r.sym(); break;
        case 4: for (int d = 0; d < D; d++) f[d] = (double)((int64_t)r.below(7) - 3); break;
        case 5: for (int d = 0; d < D; d++) f[d] = (r.below(2) ? 1 : -1) * pow10i(-4 + 8 * r.unit()); break;
        case 6: for (int d = 0; d < D; d++) f[d] = dir[d] + noise * r.sym(); break;
        case 7: { double u = 0; for (int a = 0; a < D; a++) u += X[a] * 0.3 * k[0][a];
            for (int d = 0; d < D; d++) f[d] = k[0][d] * std::cos(u + ph[0][0]) + 0.2 * (X[d] - cen[d]); break; }
        case 8: for (int d = 0; d < D; d++) f[d] = S(d) + noise * r.sym(); break;
        case 11: {   // blocks, each with a mean direction, a spread and (sometimes) a size of its own: many nearly critical cells
            uint64_t h = bs; for (int a = 0; a < 3; a++) h = mix64(h * 3 + (uint64_t)(X[a] / blk));
            Rng q(h); static const double sp[] = {0.05, 0.3, 1, 1, 3};
            double spread = sp[q.below(5)], size = wide ? pow10i(-2 + 4 * q.unit()) : 1;
            for (int d = 0; d < D; d++) f[d] = size * (q.sym() + spread * r.sym()); break; }
      }
      for (int d = 0; d < D; d++) w[d][i] = f[d];
    }
    if (c.chance(6)) { double off = pow10i((double)c.range(-1, 2)); for (int d = 0; d < D; d++) for (auto& x : w[d]) x += off * (d == 1 ? -1 : 1); c.label("vec:offset"); }
  }
  if (o.zeros && c.chance(4)) {
    int zk = c.weighted({3, 3, 2, 1}); unsigned one_in = 1 + c.draw(10); Rng z(c.seed());
    if (zk == 0) for (int d = 0; d < D; d++) { for (auto& x : w[d]) if (z.below(one_in + 1) == 0) x = 0; }
    if (zk == 1) for (size_t i = 0; i < n; i++) if (z.below(one_in + 1) == 0) for (int d = 0; d < D; d++) w[d][i] = 0;
    if (zk == 2) {   // land mask: a block of zero vectors
      double a0 = z.unit(), b0 = z.unit(), ext = 0.2 + 0.5 * z.unit();
      for (size_t i = 0; i < n; i++) { double X[3]; pos(i, X); if (X[0] >= a0 * L[0] * 0.8 && X[0] <= (a0 * 0.8 + ext) * L[0] && X[1] >= b0 * L[1] * 0.8 && X[1] <= (b0 * 0.8 + ext) * L[1]) for (int d = 0; d < D; d++) w[d][i] = 0; }
    }
    if (zk == 3) { int d = (int)z.below(D); for (auto& x : w[d]) x = 0; }
    static const char* zn[] = {"components", "vectors", "mask", "one-component"};
    c.label(std::string("vec:zeros-") + zn[zk]); c.note("zeros:%s", zn[zk]);
  }
  if (c.chance(6)) {       // spikes: some vectors or components far larger than their neighbours
    unsigned one_in = 2 + c.draw(12); double f = pow10i((double)c.range(1, 6)); bool whole = c.chance(2); Rng z(c.seed());
    for (size_t i = 0; i < n; i++) { bool v = z.below(one_in) == 0; for (int d = 0; d < D; d++) if (whole ? v : z.below(one_in) == 0) w[d][i] *= f; }
    c.label("vec:spikes"); c.note("spikes x%g", f);
  }
  bool whole_numbers = c.chance(9);      // small whole multiples: critical points on edges and faces, equal and opposite values
  if (whole_numbers) {
    static const double ks[] = {1, 2, 3, 5, 8, 30}; double K = ks[c.draw(6)];
    for (int d = 0; d < D; d++) { double m = 0; for (double x : w[d]) m = std::max(m, std::fabs(x)); if (m > 0) for (auto& x : w[d]) x = std::floor(x / m * K + 0.5); }
    c.label("vec:whole-numbers"); c.note("rounded to %g steps", K);
  }
  int sc = o.extreme_scale ? c.weighted({8, 3, 2, 1}) : c.weighted({8, 3});
  double scale = sc == 0 ? 1 : sc == 1 ? pow10i((double)c.range(-3, 3)) : sc == 2 ? pow10i((double)c.range(-10, 10)) : pow10i(o.max_mag > 1e20 ? (double)c.range((int64_t)std::log10(o.min_mag), (int64_t)std::log10(o.max_mag) - 2) : (double)c.range(-36, 16));
  double rel = c.chance(8) ? pow10i((double)c.range(-4, 4)) : 1;      // components of very different size
  if (whole_numbers) { static const double f[] = {1, 11, 13, 5}; scale = std::ldexp(f[c.draw(4)], (int)c.range(-8, 6)); rel = 1; }   // mostly not multiples of a quantised bound
  for (int d = 0; d < D; d++) for (size_t i = 0; i < n; i++) {
    double x = w[d][i] * scale * (d == 1 ? rel : 1);
    clamp_mag(x, o.min_mag, o.max_mag);
    out[d][i] = (T)x;
    if (out[d][i] == 0) out[d][i] = o.zeros ? (T)0 : (T)o.min_mag;
  }
  c.label(std::string("vec:") + names[kind]);
  c.note("%s %zux%zux%zu scale=%g rel=%g %s", names[kind], r1, r2, r3, scale, rel, sizeof(T) == 4 ? "float" : "double");
  if (n <= 30) for (int d = 0; d < D; d++) {
    std::string s; for (size_t i = 0; i < n; i++) { char b[32]; snprintf(b, 32, "%s%.9g", i ? "," : "", (double)out[d][i]); s += b; }
    c.note("%c=[%s]", "UVW"[d], s.c_str());
  }
  return out;
}

}  // namespace vp
