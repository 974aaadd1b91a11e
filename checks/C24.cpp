// C24: the printed quality report and the file helpers tell the truth.
#include "engine.hpp"
#include "gen.hpp"
#include "utils.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
using namespace vp;
typedef long double LD;

template <class F> static std::string capture(F f) {
  fflush(stdout); std::cout.flush();
  int fd = memfd_create("out", 0), old = dup(1); dup2(fd, 1);
  f();
  fflush(stdout); std::cout.flush(); dup2(old, 1); close(old);
  off_t n = lseek(fd, 0, SEEK_END); std::string s((size_t)n, 0); if (pread(fd, &s[0], n, 0) != n) s.clear(); close(fd);
  return s;
}
// the number after `key` in the report
static bool value(const std::string& s, const char* key, double& v) {
  size_t p = s.find(key); if (p == std::string::npos) return false;
  p = s.find('=', p); if (p == std::string::npos) return false;
  char* e; v = strtod(s.c_str() + p + 1, &e); return e != s.c_str() + p + 1;
}
template <class T> static void report(Case& c) {
  size_t n = 1 + (c.chance(2) ? c.draw(12) : c.draw_len(c.chance(20) ? 200000 : 20000));
  FieldOpts fo; fo.max_mag = sizeof(T) == 4 ? 1e15 : 1e30;
  std::vector<T> a = gen_field<T>(c, 1, 1, n, fo), b(a);
  int kind = c.weighted({3, 3, 2, 1, 1}); Rng r(c.seed()); double mag = range_of(a) * pow10i(-8 * c.unit());
  static const char* names[] = {"noise", "one-value", "relative", "equal", "unrelated"};
  if (kind == 0) for (auto& x : b) x = (T)(x + mag * r.sym());
  if (kind == 1) { static const int w[] = {0, 1, 2}; int k = w[c.draw(3)]; size_t i = k == 0 ? 0 : k == 1 ? n - 1 : r.below(n); b[i] = (T)(b[i] + mag * (r.below(2) ? 1 : -1)); }
  if (kind == 2) for (auto& x : b) x = (T)(x * (1 + 0.1 * r.sym()));
  if (kind == 4) for (auto& x : b) x = (T)(x * r.sym() + mag);
  if (c.chance(3)) {      // extremes at chosen places, negative data
    size_t i = c.chance(2) ? 0 : n - 1; a[i] = (T)(a[i] * 3 - 1); b[i] = a[i];
    if (c.chance(2)) for (size_t k = 0; k < n; k++) { a[k] = -std::fabs(a[k]) - 1; b[k] = -std::fabs(b[k]) - 1; }
    c.label("extreme placed");
  }
  c.note("report %s n=%zu %s", names[kind], n, sizeof(T) == 4 ? "float" : "double"); c.label(std::string("report:") + names[kind]);
  std::vector<T> a0(a), b0(b);
  std::string s = capture([&] { verify(a.data(), b.data(), n); });
  if (memcmp(a.data(), a0.data(), n * sizeof(T)) || memcmp(b.data(), b0.data(), n * sizeof(T))) c.fail("verify changed its arguments");
  // reference, in extended precision
  T mn = a[0], mx = a[0]; LD m1 = 0, m2 = 0, dmax = 0, pw = 0;
  for (size_t i = 0; i < n; i++) { mn = std::min(mn, a[i]); mx = std::max(mx, a[i]); m1 += a[i]; m2 += b[i]; LD d = std::fabs((LD)a[i] - b[i]); dmax = std::max(dmax, d); if (std::fabs(a[i]) > 1) pw = std::max(pw, d / std::fabs((LD)a[i])); }
  m1 /= n; m2 /= n; LD v1 = 0, v2 = 0, cov = 0, sq = 0;
  for (size_t i = 0; i < n; i++) { v1 += (a[i] - m1) * (a[i] - m1); v2 += (b[i] - m2) * (b[i] - m2); cov += (a[i] - m1) * (b[i] - m2); sq += ((LD)a[i] - b[i]) * ((LD)a[i] - b[i]); }
  v1 /= n; v2 /= n; cov /= n; LD mse = sq / n, range = (LD)mx - mn;
  LD ulp = sizeof(T) == 4 ? 1.2e-7L : 2.3e-16L;
  struct { const char* key; LD want; LD tol; bool judged; } t[] = {
    {"Min", (LD)mn, 0, true}, {"Max=", (LD)mx, 0, true}, {"range", range, ulp * std::fabs(range), true},
    {"Max absolute error", dmax, 1e-10L + 2 * ulp * dmax, true},
    {"Max relative error", range > 0 ? dmax / range : 0, 1e-6L + 6 * ulp * (range > 0 ? dmax / range : 0), range > 0},
    {"Max pw relative error", pw, 1e-6L + 4 * ulp * pw, true},
    {"PSNR", range > 0 && mse > 0 ? 20 * log10l(range) - 10 * log10l(mse) : 0, 1e-4L, range > 0 && mse > 0 && mse > 1e-30L && mse < 1e30L},
    {"NRMSE", range > 0 ? sqrtl(mse) / range : 0, 1e-4L * (range > 0 ? sqrtl(mse) / range : 0) + 1e-30L, range > 0 && mse > 1e-30L && mse < 1e30L},
  };
  for (auto& x : t) {
    double v; if (!value(s, x.key, v)) c.fail("no \"%s\" in the report: %s", x.key, s.c_str());
    if (x.judged && !(fabsl((LD)v - x.want) <= x.tol)) c.fail("the report says %s %.12g, it is %.12Lg (n=%zu)", x.key, v, x.want, n);
  }
  LD cond = v1 > 0 && v2 > 0 ? (m1 * m1 / v1 + m2 * m2 / v2) * 1e-15L * sqrtl((LD)n) : 1; double v;
  if (!value(s, "acEff", v)) c.fail("no acEff in the report");
  if (v1 > 1e-60L && v2 > 1e-60L && v1 < 1e60L && cond < 1e-6L && !(fabsl((LD)v - cov / sqrtl(v1 * v2)) <= 2e-6L + cond)) c.fail("the report says acEff %.9g, it is %.9Lg (n=%zu)", v, cov / sqrtl(v1 * v2), n);
  c.nontrivial(n >= 3 && dmax > 0 && range > 0);
}
template <class T> static void files(Case& c, const std::string& dir, const char* tn) {
  size_t n = c.draw_len(c.chance(10) ? 300000 : 30000); Rng r(c.seed()); std::vector<T> v(n);
  for (size_t i = 0; i < n; i++) { uint64_t x = r.next(); if (r.below(5) == 0) x = 0x0a0d1a000a0d1a00ULL; memcpy(&v[i], &x, sizeof(T)); }
  std::string f = dir + "/f.dat";
  if (c.chance(3)) { std::vector<char> junk(n * sizeof(T) + 1 + c.draw(100), 'x'); FILE* o = fopen(f.c_str(), "wb"); fwrite(junk.data(), 1, junk.size(), o); fclose(o); c.label("file:existing longer"); }
  std::vector<T> keep(v);
  writefile(f.c_str(), v.data(), n);
  if (n && memcmp(v.data(), keep.data(), n * sizeof(T))) c.fail("writefile changed the array");
  struct stat st; if (stat(f.c_str(), &st) || (size_t)st.st_size != n * sizeof(T)) c.fail("writing %zu %s values left a file of %lld bytes", n, tn, (long long)st.st_size);
  size_t got = 77; T* d = readfile<T>(f.c_str(), got);
  if (!d && n) c.fail("readfile returned nothing");
  if (got != n) c.fail("%zu %s values written, %zu read", n, tn, got);
  if (n && memcmp(d, keep.data(), n * sizeof(T))) c.fail("readfile returned other %s values", tn);
  free(d);
  std::vector<T> buf(n + 4); memset((void*)buf.data(), 0x5a, buf.size() * sizeof(T)); std::vector<T> b0(buf); got = 77; std::vector<char> name(f.begin(), f.end()); name.push_back(0);
  readfile_to_buffer<T>(name.data(), got, buf.data());
  if (got != n || (n && memcmp(buf.data(), keep.data(), n * sizeof(T)))) c.fail("readfile_to_buffer: %zu of %zu %s values, or other values", got, n, tn);
  if (memcmp(buf.data() + n, b0.data() + n, 4 * sizeof(T))) c.fail("readfile_to_buffer wrote behind the array");
  // a file that holds a part of a value at its end: whole values are read
  if (sizeof(T) > 1 && c.chance(3)) {
    FILE* o = fopen(f.c_str(), "ab"); fputc(1, o); fclose(o); got = 77; T* e = readfile<T>(f.c_str(), got);
    if (got != n || (n && memcmp(e, keep.data(), n * sizeof(T)))) c.fail("trailing byte: %zu of %zu values, or other values", got, n);
    free(e); c.label("file:trailing byte");
  }
  unlink(f.c_str());
  std::string out = capture([&] { got = 77; T* e = readfile<T>(f.c_str(), got); if (e) c.fail("readfile of a missing file returned an array"); });
  c.note("file of %zu %s", n, tn); c.label(std::string("file:") + tn); c.nontrivial(n >= 2);
}
static void prop(Case& c) {
  if (!c.chance(3)) { if (c.chance(2)) report<double>(c); else report<float>(c); return; }
  char dir[] = "/tmp/vp-c24-XXXXXX"; if (!mkdtemp(dir)) c.discard();
  std::string d = dir;
  try { switch (c.draw(5)) { case 0: files<float>(c, d, "float"); break; case 1: files<double>(c, d, "double"); break; case 2: files<unsigned char>(c, d, "byte"); break; case 3: files<int>(c, d, "int"); break; default: files<size_t>(c, d, "size_t"); } }
  catch (...) { unlink((d + "/f.dat").c_str()); rmdir(dir); throw; }
  rmdir(dir);
}
int main(int argc, char** argv) {
  Check k{"C24", "random pair of arrays (noise, one differing value, relative error, equal, unrelated; extremes placed at the ends; negative data) against a reference computed in extended precision; random arrays of five element types written and read back; non-trivial when at least 3 values with a range and an error (report) or at least 2 values (files)", prop, 40000, 600000};
  k.assumptions = {"magnitudes up to 1e15 (float) and 1e30 (double), so that the report's own squares are representable; PSNR and NRMSE are judged for mean squared errors between 1e-30 and 1e30", "the printed decimals limit the comparison (six or ten digits after the point)"};
  return run_check(argc, argv, k);
}
