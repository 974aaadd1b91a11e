// Generators shared by the vector-field checks.
#pragma once
#include "vec.hpp"
#include "codecs.hpp"
#include "oracle.hpp"
namespace vp {
// user bound: relative fraction in (0,1]
inline double gen_rel_eb(Case& c) {
  static const double f[] = {0.1, 0.01, 0.05, 0.5, 1, 0.001, 0.2, 1e-4};
  double e = c.chance(2) ? f[c.draw(8)] : pow10i(-6 * c.unit());
  if (c.chance(4)) { e = std::exp2(std::ldexp(1.0, -(int)c.draw(16))) - 1; c.label("eb:tight-rel"); }   // log2(1+eb) is a power of two
  if (c.chance(4)) { static const double g[] = {1, 0.9, 0.7, 0.4}; e = g[c.draw(4)]; }        // only the critical points limit the error
  if (c.chance(50)) e = pow10i(-6 - 2 * c.unit());       // around the smallest representable bound
  c.note("rel eb=%.17g", e); c.label(e < 1e-4 ? "eb:tiny" : e < 0.02 ? "eb:small" : e < 0.3 ? "eb:medium" : "eb:large");
  return e;
}
template <class T> double gen_vec_abs_eb(Case& c, const std::vector<std::vector<T>>& w) {
  double m = 0; for (auto& x : w) m = std::max(m, absmax_of(x));
  if (!(m > 0)) m = 1;
  double e = c.chance(3) ? m * 0.1 : m * pow10i(-7 + 8 * c.unit());
  if (c.chance(10)) { static const double f[] = {0.1, 1e-2, 1e-3, 1}; e = f[c.draw(4)]; }
  if (c.chance(6)) e = m * (0.3 + 2 * c.unit());          // only the critical points limit the error
  if (c.chance(40)) e = pow10i(-16 + 2 * c.unit());       // around the smallest representable bound
  if (c.chance(3)) { e = std::ldexp(1.0, 2 * (int)std::floor(std::log2(e) / 2)) * (1 + 1e-9); c.label("eb:tight-abs"); }   // quantising the bound leaves no room
  c.note("abs eb=%.17g", e); c.label(e / m < 1e-4 ? "eb:tiny" : e / m < 0.02 ? "eb:small" : e / m < 0.3 ? "eb:medium" : "eb:large");
  return e;
}
// planar shapes for vector fields: tiny grids often (so that a case is one or two triangles), lines, medium
inline Shape2 gen_vshape2(Case& c, size_t max_elems) {
  Shape2 s{2, 2};
  if (max_elems == LARGE) return gen_large2(c);
  switch (c.weighted({10, 10, 10, 8, 2, 1, 5})) {
    case 0: s.r1 = c.range(2, 4); s.r2 = c.range(2, 4); break;
    case 1: s.r1 = c.range(1, 12); s.r2 = c.range(1, 12); break;
    case 2: s.r1 = c.range(2, 32); s.r2 = c.range(2, 32); break;
    case 3: s.r1 = c.range(2, 90); s.r2 = c.range(2, 90); break;
    case 4: s.r1 = 1; s.r2 = c.range(1, 200); if (c.chance(2)) std::swap(s.r1, s.r2); break;
    case 6: s.r1 = c.range(2, 4); s.r2 = c.range(10, 600); if (c.chance(2)) std::swap(s.r1, s.r2); break;
    case 5: s.r1 = c.range(2, 9); s.r2 = c.range(120, 1400); if (c.chance(2)) std::swap(s.r1, s.r2); break;  // several levels deep in one direction only
  }
  while (s.n() > max_elems) { if (s.r1 > s.r2) s.r1 = (s.r1 + 1) / 2; else s.r2 = (s.r2 + 1) / 2; }
  c.label(s.n() == 1 ? "shape:single" : (s.r1 == 1 || s.r2 == 1) ? "shape:line" : s.r1 > 100 || s.r2 > 100 ? "shape:long" : s.n() <= 16 ? "shape:tiny" : s.n() <= 1024 ? "shape:small" : "shape:medium");
  return s;
}
inline Shape3 gen_vshape3(Case& c, size_t max_elems) {
  Shape3 s{2, 2, 2};
  if (max_elems == LARGE) return gen_large3(c);
  switch (c.weighted({10, 6, 6, 4, 2, 8})) {
    case 0: s = {(size_t)c.range(2, 3), (size_t)c.range(2, 3), (size_t)c.range(2, 3)}; break;
    case 1: s = {(size_t)c.range(1, 6), (size_t)c.range(1, 6), (size_t)c.range(1, 6)}; break;
    case 2: s = {(size_t)c.range(2, 10), (size_t)c.range(2, 10), (size_t)c.range(2, 10)}; break;
    case 3: s = {(size_t)c.range(2, 24), (size_t)c.range(2, 24), (size_t)c.range(2, 24)}; break;
    case 4: s = {1, 1, 1}; (c.draw(3) == 0 ? s.r1 : c.chance(2) ? s.r2 : s.r3) = c.range(1, 60); break;
    case 5: s = {(size_t)c.range(2, 4), (size_t)c.range(2, 4), (size_t)c.range(2, 4)}; (c.draw(3) == 0 ? s.r1 : c.chance(2) ? s.r2 : s.r3) = c.range(60, 600); break;
  }
  while (s.n() > max_elems) { size_t& m = s.r1 >= s.r2 && s.r1 >= s.r3 ? s.r1 : s.r2 >= s.r3 ? s.r2 : s.r3; m = (m + 1) / 2; }
  c.label(s.n() == 1 ? "shape:single" : (s.r1 == 1 || s.r2 == 1 || s.r3 == 1) ? "shape:thin" : s.n() <= 27 ? "shape:tiny" : s.n() <= 1000 ? "shape:small" : "shape:medium");
  return s;
}
// relative bound, sign and zero for one component; slack covers single-precision logarithms where they are used.
// Returns how many values came back bit for bit.
template <class T> size_t check_component(Case& c, const std::vector<T>& a, const std::vector<T>& d, Bound b, double eb, const char* what) {
  size_t exact = 0;
  for (size_t i = 0; i < a.size(); i++) {
    if (same_bits(a[i], d[i])) { exact++; continue; }
    if (!std::isfinite(d[i])) c.fail("%s %zu: original %.17g came back as %.17g", what, i, (double)a[i], (double)d[i]);
    if (b == ABS) {
      double e = std::fabs((double)(d[i] - a[i]));
      if (!(e <= eb * (1 + 1e-6))) c.fail("%s %zu: original %.17g came back as %.17g, error %.9g exceeds the bound %.9g", what, i, (double)a[i], (double)d[i], e, eb);
      continue;
    }
    if (a[i] == 0) { if (d[i] != 0) c.fail("%s %zu: zero came back as %.17g", what, i, (double)d[i]); exact++; continue; }
    double slack = b == LOG ? 3e-7 * (1 + std::fabs(std::log2(std::fabs((double)a[i])))) : (sizeof(T) == 4 ? 1.5e-7 : 1e-13);
    double r = std::fabs((double)d[i] - (double)a[i]) / std::fabs((double)a[i]);
    if (!(r <= eb * (1 + 1e-6) + slack)) c.fail("%s %zu: original %.17g came back as %.17g, relative error %.9g exceeds the bound %.9g", what, i, (double)a[i], (double)d[i], r, eb);
    if (d[i] != 0 && (d[i] < 0) != (a[i] < 0)) c.fail("%s %zu: original %.17g came back with the other sign %.17g", what, i, (double)a[i], (double)d[i]);
    if (b == LOG && d[i] == 0) c.fail("%s %zu: original %.17g came back as zero", what, i, (double)a[i]);
  }
  return exact;
}
}  // namespace vp
