// Oracles shared by the checks.
#pragma once
#include "gen.hpp"
namespace vp {

// every value within the absolute bound; returns how many came back bit for bit
template <class T>
size_t check_abs(Case& c, const T* a, const T* d, size_t n, double eb, const char* what) {
  if (!d) c.fail("%s: decompression returned no array", what);
  size_t exact = 0;
  for (size_t i = 0; i < n; i++) {
    if (same_bits(a[i], d[i])) { exact++; continue; }
    if (!std::isfinite(d[i])) c.fail("%s %zu: original %.17g came back as %.17g", what, i, (double)a[i], (double)d[i]);
    double e = std::fabs((double)(d[i] - a[i]));
    if (!(e <= eb * (1 + 1e-6))) c.fail("%s %zu: original %.17g came back as %.17g, error %.9g exceeds the bound %.9g", what, i, (double)a[i], (double)d[i], e, eb);
  }
  return exact;
}
// every value within eb*|original| (+ slack relative to |original|), sign kept, zero stays zero
template <class T>
size_t check_rel(Case& c, const T* a, const T* d, size_t n, double eb, double slack, const char* what) {
  if (!d) c.fail("%s: decompression returned no array", what);
  size_t exact = 0;
  for (size_t i = 0; i < n; i++) {
    if (same_bits(a[i], d[i])) { exact++; continue; }
    if (!std::isfinite(d[i])) c.fail("%s %zu: original %.17g came back as %.17g", what, i, (double)a[i], (double)d[i]);
    if (a[i] == 0) { if (d[i] != 0) c.fail("%s %zu: zero came back as %.17g", what, i, (double)d[i]); exact++; continue; }
    double r = std::fabs((double)d[i] - (double)a[i]) / std::fabs((double)a[i]);
    if (!(r <= eb * (1 + 1e-6) + slack)) c.fail("%s %zu: original %.17g came back as %.17g, relative error %.9g exceeds the bound %.9g", what, i, (double)a[i], (double)d[i], r, eb);
    if (d[i] != 0 && (d[i] < 0) != (a[i] < 0)) c.fail("%s %zu: original %.17g came back with the other sign %.17g", what, i, (double)a[i], (double)d[i]);
  }
  return exact;
}
}  // namespace vp
