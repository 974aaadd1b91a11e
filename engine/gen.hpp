// Generators shared by the checks: shapes, scalar fields, vector fields, bounds.
#pragma once
#include "engine.hpp"
#include <cmath>
#include <cfloat>
#include <cstring>
#include <cstdlib>
#include <limits>
#include <algorithm>
#include <string>
#include <vector>

namespace vp {

struct Shape2 { size_t r1, r2; size_t n() const { return r1 * r2; } };
struct Shape3 { size_t r1, r2, r3; size_t n() const { return r1 * r2 * r3; } };

// 2D shapes: single element, rows, columns, tiny, around block sizes, medium
// once in a while an array far larger than the others
const size_t LARGE = 260000;
inline size_t size_cap(Case& c, size_t normal, unsigned one_in = 1500) { return c.chance(one_in) ? LARGE : normal; }
inline Shape2 gen_large2(Case& c) {
  Shape2 s{1, 1}; c.label("shape:large");
  switch (c.draw(5)) {
    case 4: { int k = 15 + (int)c.draw(3), a = (int)c.draw(k + 1); s.r1 = (size_t)1 << a; s.r2 = (size_t)1 << (k - a); break; }
    case 0: s.r1 = c.range(350, 510); s.r2 = c.range(350, 510); break;
    case 1: s.r1 = c.range(2, 4); s.r2 = c.range(33000, 65000); break;
    case 2: s.r2 = c.range(2, 4); s.r1 = c.range(33000, 65000); break;
    case 3: s.r2 = c.range(65000, 200000); if (c.chance(2)) std::swap(s.r1, s.r2); break;
  }
  return s;
}
inline Shape3 gen_large3(Case& c) {
  Shape3 s{1, 1, 1}; c.label("shape:large");
  if (c.chance(3)) { size_t d[3] = {(size_t)c.range(2, 4), (size_t)c.range(2, 4), (size_t)c.range(4000, 16000)}; std::swap(d[2], d[c.draw(3)]); s = {d[0], d[1], d[2]}; }
  else { size_t d[3] = {(size_t)c.range(20, 60), (size_t)c.range(20, 60), (size_t)c.range(40, 72)}; std::swap(d[2], d[c.draw(3)]); s = {d[0], d[1], d[2]}; }
  return s;
}
inline Shape2 gen_shape2(Case& c, size_t max_elems, size_t max_side = 200) {
  Shape2 s{1, 1};
  if (max_elems == LARGE) return gen_large2(c);
  switch (c.weighted({4, 5, 2, 2, 6, 6, 3})) {
    case 0: s.r1 = c.range(1, 6); s.r2 = c.range(1, 6); break;
    case 1: s.r1 = c.range(1, 16); s.r2 = c.range(1, 16); break;
    case 2: s.r1 = 1; s.r2 = 1 + c.draw_size(max_side); break;
    case 3: s.r2 = 1; s.r1 = 1 + c.draw_size(max_side); break;
    case 4: s.r1 = 1 + c.draw(40); s.r2 = 1 + c.draw(40); break;
    case 5: { static const int b[] = {6, 7, 8, 11, 12, 13, 16, 23, 24, 25, 31, 32, 33, 36, 48, 64}; s.r1 = b[c.draw(16)]; s.r2 = b[c.draw(16)]; break; }
    case 6: s.r1 = 1 + c.draw(max_side); s.r2 = 1 + c.draw(max_side); break;
  }
  while (s.r1 * s.r2 > max_elems) { if (s.r1 > s.r2) s.r1 = (s.r1 + 1) / 2; else s.r2 = (s.r2 + 1) / 2; }
  c.label(s.n() == 1 ? "shape:single" : (s.r1 == 1 || s.r2 == 1) ? "shape:line" : s.n() <= 36 ? "shape:tiny" : s.n() <= 1024 ? "shape:small" : "shape:medium");
  return s;
}
inline Shape3 gen_shape3(Case& c, size_t max_elems, size_t max_side = 40) {
  Shape3 s{1, 1, 1};
  if (max_elems == LARGE) return gen_large3(c);
  switch (c.weighted({4, 5, 3, 6, 4, 4})) {
    case 0: s.r1 = c.range(1, 4); s.r2 = c.range(1, 4); s.r3 = c.range(1, 4); break;
    case 1: s.r1 = c.range(1, 9); s.r2 = c.range(1, 9); s.r3 = c.range(1, 9); break;
    case 2: { size_t d[3]; for (auto& x : d) x = c.chance(2) ? 1 : 1 + c.draw(max_side); s = {d[0], d[1], d[2]}; break; }
    case 3: { static const int b[] = {3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 24}; s.r1 = b[c.draw(12)]; s.r2 = b[c.draw(12)]; s.r3 = b[c.draw(12)]; break; }
    case 4: s.r1 = 1 + c.draw(max_side); s.r2 = 1 + c.draw(max_side); s.r3 = 1 + c.draw(max_side); break;
    case 5: s = {(size_t)c.range(1, 6), (size_t)c.range(1, 6), (size_t)c.range(1, 6)}; (c.draw(2) == 0 ? s.r3 : c.chance(2) ? s.r2 : s.r1) = c.range(60, 420); break;   // rows longer than the sampling step
  }
  while (s.n() > max_elems) { size_t& m = s.r1 >= s.r2 && s.r1 >= s.r3 ? s.r1 : s.r2 >= s.r3 ? s.r2 : s.r3; m = (m + 1) / 2; }
  c.label(s.n() == 1 ? "shape:single" : (s.r1 == 1 || s.r2 == 1 || s.r3 == 1) ? "shape:thin" : s.n() <= 64 ? "shape:tiny" : s.n() <= 2048 ? "shape:small" : "shape:medium");
  return s;
}

inline double pow10i(double e) { return std::pow(10.0, e); }

struct FieldOpts {
  bool allow_extreme = true;      // scales far from 1
  double min_mag = 0, max_mag = 0;   // 0: no limit; non-zero values forced into [min_mag,max_mag]
  bool zeros = true;
};

// scalar field over an (r1,r2,r3) grid in row-major order
template <class T>
std::vector<T> gen_field(Case& c, size_t r1, size_t r2, size_t r3, const FieldOpts& o = FieldOpts()) {
  size_t n = r1 * r2 * r3;
  std::vector<T> a(n);
  std::vector<double> v(n, 0.0);
  const char* name = "";
  int kind = c.weighted({2, 2, 4, 4, 3, 2, 3, 2, 3, 3, 2, 3, 2, (n <= 48 ? 14 : 0)});
  double amp = 1;
  bool raw = false;
  if (kind == 13) {
    name = "explicit"; raw = true;
    static const double sp[] = {0, 1, -1, 2, 0.5, -0.5, 3, 10, 100, -100, 1e-3, 1e3, 0.1, -0.1, 1e-6, 1e6};
    for (size_t i = 0; i < n; i++) {
      int k = c.weighted({4, 3, 3});
      v[i] = k == 0 ? sp[c.draw(16)] : k == 1 ? (double)c.range(-8, 8) : (c.unit() * 2 - 1) * pow10i((double)c.range(-3, 3));
    }
  } else {
    uint64_t sd = c.seed(); Rng r(sd);
    double k1 = r.sym() * 8, k2 = r.sym() * 8, k3 = r.sym() * 8, p1 = r.unit() * 6.3, p2 = r.unit() * 6.3, p3 = r.unit() * 6.3;
    double g1 = r.sym(), g2 = r.sym(), g3 = r.sym();
    size_t plateau = 1 + r.below(7); double base = r.sym() * 3; double frac = std::pow(10.0, -3 * r.unit());
    double walk = 0; double noise = std::pow(10.0, -6 + 6 * r.unit());
    for (size_t x = 0; x < r1; x++) for (size_t y = 0; y < r2; y++) for (size_t z = 0; z < r3; z++) {
      size_t i = (x * r2 + y) * r3 + z;
      double fx = r1 > 1 ? x / (double)(r1 - 1) : 0, fy = r2 > 1 ? y / (double)(r2 - 1) : 0, fz = r3 > 1 ? z / (double)(r3 - 1) : 0;
      double smooth = std::sin(k1 * fx + p1) * std::cos(k2 * fy + p2) * (r3 > 1 ? std::cos(k3 * fz + p3) : 1.0) + 0.3 * std::sin(2 * k2 * fx + k1 * fy + p3);
      switch (kind) {
        case 0: v[i] = (sd % 3 == 0) ? 0 : base; name = "constant"; break;
        case 1: v[i] = g1 * x + g2 * y + g3 * z + base; name = "ramp"; break;
        case 2: v[i] = smooth; name = "smooth"; break;
        case 3: v[i] = r.sym(); name = "noise"; break;
        case 4: v[i] = (r.below(2) ? 1 : -1) * pow10i(-6 + 12 * r.unit()); name = "logwide"; break;
        case 5: v[i] = (double)((int64_t)r.below(7) - 3); name = "integers"; break;
        case 6: v[i] = (((x / plateau) + (y / plateau) + (z / plateau)) % 2) ? base : -base * 0.7 + 1e-4 * r.sym(); name = "plateaus"; break;
        case 7: v[i] = r.unit() < frac ? r.sym() * 1000 : base; name = "spikes"; break;
        case 8: v[i] = r.unit() < 0.12 ? smooth * 5 : base + noise * 0.01 * r.sym(); name = "mostly-mean"; break;
        case 9: v[i] = smooth + noise * r.sym(); name = "smooth+noise"; break;
        case 10: v[i] = fx * fx * g1 + fy * fy * g2 + fx * fy + fz * g3 * 2 + base; name = "quadratic"; break;
        case 11: v[i] = (walk += r.sym() * 0.1); name = "walk"; break;
        case 12: v[i] = ((x + y + z) & 1) ? 1.0 : -1.0 + 0.01 * r.sym(); name = "checker"; break;
      }
    }
    int sc = o.allow_extreme ? c.weighted({10, 4, 3, 1, 1}) : c.weighted({10, 3});
    if (sc == 1) amp = pow10i((double)c.range(-4, 4));
    if (sc == 2) amp = pow10i((double)c.range(-12, 12));
    if (sc == 3) amp = pow10i(30);
    if (sc == 4) amp = pow10i(-30);
    if (o.allow_extreme && sizeof(T) == 8 && c.chance(12)) { amp = pow10i((double)c.range(-290, 290)); c.label("field:double-range"); }
    double off = 0;
    if (c.chance(6)) off = pow10i((double)c.range(0, 5)) * (c.chance(2) ? -1 : 1);
    for (auto& x : v) x = (x + off) * amp;
    if (o.zeros && c.chance(5)) {     // sprinkle exact zeros
      unsigned one_in = 1 + c.draw(12); Rng z(c.seed());
      for (auto& x : v) if (z.below(one_in) == 0) x = 0;
      c.label("field:zeros-sprinkled");
    }
    if (c.chance(6)) {                // a few explicit patches
      int k = 1 + c.draw(4);
      for (int j = 0; j < k; j++) {
        size_t at = c.draw(n); static const double pv[] = {0, 1, -1, 1e6, -1e6, 1e-6, 1e20, -1e20};
        v[at] = pv[c.draw(o.allow_extreme ? 8 : 6)];
      }
      c.label("field:patched");
    }
  }
  (void)raw;
  c.label(std::string("field:") + name);
  double lim = std::numeric_limits<T>::max() / 64;
  for (size_t i = 0; i < n; i++) {
    double x = v[i];
    if (!(std::fabs(x) <= lim)) x = x < 0 ? -lim : lim;
    T t = (T)x;
    if (std::fabs(t) < std::numeric_limits<T>::min() * 16) t = 0;
    if (t != 0 && o.min_mag > 0 && std::fabs(t) < o.min_mag) t = (T)(t < 0 ? -o.min_mag : o.min_mag);
    if (t != 0 && o.max_mag > 0 && std::fabs(t) > o.max_mag) t = (T)(t < 0 ? -o.max_mag : o.max_mag);
    if (t == 0) { t = 0; if (!o.zeros) t = (T)(o.min_mag > 0 ? o.min_mag : 1); }
    a[i] = t;
  }
  c.note("%s %zux%zux%zu amp=%g", name, r1, r2, r3, amp);
  if (n <= 48) {
    std::string s = "[";
    for (size_t i = 0; i < n; i++) { char b[32]; snprintf(b, 32, "%s%.9g", i ? "," : "", (double)a[i]); s += b; }
    c.note("%s]", s.c_str());
  }
  return a;
}

template <class T> double range_of(const std::vector<T>& a) {
  if (a.empty()) return 0;
  double lo = a[0], hi = a[0];
  for (T x : a) { lo = std::min(lo, (double)x); hi = std::max(hi, (double)x); }
  return hi - lo;
}
template <class T> double absmax_of(const std::vector<T>& a) { double m = 0; for (T x : a) m = std::max(m, std::fabs((double)x)); return m; }

// absolute bound: from far below to far above the value range
template <class T> double gen_abs_eb(Case& c, const std::vector<T>& a, int lo = -7, int hi = 1) {
  double rg = range_of(a); if (!(rg > 0)) rg = absmax_of(a); if (!(rg > 0)) rg = 1;
  double e;
  if (c.chance(6)) { static const double f[] = {1, 0.1, 0.01, 0.001, 1e-4, 0.5, 0.05, 2}; e = f[c.draw(8)]; if (e > rg * 100 || e < rg * 1e-9) e = rg * 0.01; }
  else e = rg * std::pow(10.0, lo + (hi - lo) * c.unit());
  if (c.chance(25)) e = c.chance(2) ? rg * pow10i(hi + 12 * c.unit()) : rg * pow10i(lo - 12 * c.unit());   // far outside the useful range
  e = std::min(std::max(e, 1e-300), 1e300);
  if (sizeof(T) == 4) e = std::max(e, 1e-36);
  c.note("eb=%.17g", e);
  double q = e / rg;
  c.label(q < 1e-5 ? "eb:tiny" : q < 1e-2 ? "eb:small" : q < 0.3 ? "eb:medium" : "eb:large");
  return e;
}

// values that are whole multiples of a power-of-two bound: prediction errors fall exactly on the edges of quantisation
// intervals, and some exactly on the edges of the representable range (c: 16384, 32768 or 65536 intervals)
template <class T> std::vector<T> gen_lattice(Case& c, size_t r1, size_t r2, size_t r3, double& eb) {
  size_t n = r1 * r2 * r3;
  std::vector<T> a(n);
  eb = std::ldexp(1.0, (int)c.range(-8, 6));
  int64_t span = c.range(0, 3); unsigned jump_in = 2 + (unsigned)c.draw(c.chance(2) ? 12 : 200); int cap = 64 << c.draw(12); bool hold = c.chance(2);
  Rng r(c.seed());
  static const int near[] = {-2, -1, -1, -1, 0, 0, 1, 2};
  int64_t v = 0;
  for (size_t i = 0; i < n; i++) {
    int64_t w = span ? (int64_t)r.below(2 * span + 1) - span : 0;
    if (r.below(jump_in) == 0) {
      int64_t j = (cap >> (r.below(4) == 0 ? 1 : 0)) + near[r.below(8)];
      if (r.below(2)) j = -j;
      if (hold && std::llabs(v + j) < 4 * 65536) v += j; else w += j;
    }
    a[i] = (T)((double)(v + w) * eb);
  }
  c.label("field:lattice");
  c.note("lattice %zux%zux%zu eb=%g span=%d jump 1/%u cap=%d", r1, r2, r3, eb, (int)span, jump_in, cap);
  return a;
}

template <class T> bool same_bits(T a, T b) { return memcmp(&a, &b, sizeof(T)) == 0; }

// exact-size heap copy: reading past the end is visible to AddressSanitizer
inline unsigned char* exact_copy(const unsigned char* p, size_t n) {
  unsigned char* q = (unsigned char*)malloc(n ? n : 1);
  memcpy(q, p, n);
  return q;
}

}  // namespace vp
