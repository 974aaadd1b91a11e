// C23: compression pays off on easy data, and never expands data much.
// c23_limits.hpp holds, per compressor, precision, kind of data, offset and bound, the bits per value the pinned
// version needs at most, measured over many generated fields (tools/calibrate_c23.py), with a margin.
#include "engine.hpp"
#include "ops.hpp"
#include "c23_limits.hpp"
#include <unistd.h>
#include <fcntl.h>
using namespace vp;

enum { CONSTANT, RAMP, SMOOTH, NOISE, TIGHT_NOISE };
static const char* kinds[] = {"constant", "ramp", "smooth", "noise", "noise-tight"};
static const double fr[] = {1e-1, 1e-2, 1e-3, 1e-4};
template <class T> static std::vector<T> easy(size_t r1, size_t r2, size_t r3, int kind, double off, double amp, uint64_t sd) {
  std::vector<T> a(r1 * r2 * r3); Rng r(sd);
  double k[3], ph[3], g[3]; for (int i = 0; i < 3; i++) { k[i] = (0.02 + 0.06 * r.unit()) * (r.below(2) ? 1 : -1); ph[i] = 6.3 * r.unit(); g[i] = (0.5 + 0.5 * r.unit()) * (r.below(2) ? 0.02 : -0.02); }
  size_t i = 0;
  for (size_t x = 0; x < r1; x++) for (size_t y = 0; y < r2; y++) for (size_t z = 0; z < r3; z++, i++) {
    double v = 0;
    switch (kind) {
      case CONSTANT: v = 0.5; break;
      case RAMP: v = g[0] * x + g[1] * y + g[2] * z; break;
      case SMOOTH: v = std::sin(k[0] * x + ph[0]) * std::cos(k[1] * y + ph[1]) * (r3 > 1 ? std::cos(k[2] * z + ph[2]) : 1) + 0.2 * std::sin(k[1] * x + k[0] * y + k[2] * z); break;
      default: v = r.sym();
    }
    a[i] = (T)((v + off) * amp);
  }
  return a;
}
static const int NCODEC = 20;
struct Enc { std::string name; size_t raw = 0, bytes = 0, z = 0, vals = 0; bool dbl = false; };
struct Spec { int codec, kind; uint64_t sd; double off, amp; bool dbl; size_t r1, r2, r3; };
template <class T> static Enc encode_as(Case& c, const Spec& q, double f) {
  Enc e; size_t n = q.r1 * q.r2 * q.r3; unsigned char* p = nullptr; e.dbl = sizeof(T) == 8; size_t comps = 1;
  auto field = [&](int i) { double off = q.off == 0 ? 0 : q.off + (i == 1 ? 1 : i == 2 ? -9 : 0); return easy<T>(q.r1, q.r2, q.r3, q.kind, off, q.amp, q.sd + i); };
  auto U = field(0); size_t& sz = e.bytes;
  if (q.codec < 8) {
    double rg = range_of(U); if (!(rg > 0)) rg = absmax_of(U); double eb = rg * f;
    std::vector<float> F(U.begin(), U.end()); bool onlyf = q.codec < 2 || q.codec == 5 || q.codec == 6; if (onlyf) e.dbl = false;
    std::vector<double> ebs(n, q.codec == 6 ? f : eb);
    switch (q.codec) {
      case 0: case 1: e.name = "2d"; p = sz_compress_2d<float>(F.data(), q.r1, q.r2, eb, sz, 12, q.codec); break;
      case 2: case 3: e.name = q.codec == 2 ? "3d-dependent" : "3d-independent"; p = sz_compress_3d<T>(U.data(), q.r1, q.r2, q.r3, eb, sz, 8, q.codec == 3); break;
      case 4: e.name = "2d-per-point"; p = sz_compress_2d_with_eb<T>(U.data(), ebs.data(), q.r1, q.r2, sz, 12, false); break;
      case 5: e.name = "pwr"; p = sz_compress_2d_pwr<float>(F.data(), q.r1, q.r2, f, sz, 12, false); break;
      case 6: { e.name = "pwr-per-point"; double* l = nullptr; p = sz_compress_2d_pwr_with_eb<float>(F.data(), ebs.data(), &l, q.r1, q.r2, sz, 12, false); free(l); break; }
      case 7: e.name = "3d-per-point"; p = sz_compress_3d_with_eb<T>(U.data(), ebs.data(), q.r1, q.r2, q.r3, sz, 8, false); break;
    }
  } else if (q.codec < 16) {
    auto V = field(1); comps = 2;
    auto& k = codecs2<T>()[q.codec - 8]; e.name = k.name; double eb = k.bound == ABS ? std::max(absmax_of(U), absmax_of(V)) * f : f;
    p = k.comp(U.data(), V.data(), q.r1, q.r2, sz, false, eb);
  } else {
    auto V = field(1), W = field(2); comps = 3;
    if (q.codec == 19) {
      e.name = "unstructured"; std::vector<T> d(3 * n), pts(3 * n); for (size_t i = 0; i < n; i++) { d[3 * i] = U[i]; d[3 * i + 1] = V[i]; d[3 * i + 2] = W[i]; }
      std::vector<int> t; for (size_t i = 0; i + 1 < q.r1; i++) for (size_t j = 0; j + 1 < q.r2; j++) for (size_t l = 0; l + 1 < q.r3; l++) { int o = (int)((i * q.r2 + j) * q.r3 + l); int v[4] = {o, o + 1, o + (int)q.r3, o + (int)(q.r2 * q.r3)}; t.insert(t.end(), v, v + 4); }
      p = sz_compress_cp_preserve_3d_unstructured<T>((int)n, pts.data(), d.data(), (int)t.size() / 4, t.data(), sz, f);
    } else {
      auto& k = codecs3<T>()[q.codec - 16]; e.name = k.name; double eb = k.bound == ABS ? std::max(absmax_of(U), std::max(absmax_of(V), absmax_of(W))) * f : f;
      p = k.comp(U.data(), V.data(), W.data(), q.r1, q.r2, q.r3, sz, false, eb);
    }
  }
  if (!p || !sz) c.fail("%s: no stream", e.name.c_str());
  unsigned char* z = nullptr; e.z = sz_lossless_compress(ZSTD_COMPRESSOR, 3, p, sz, &z); free(p); free(z);
  e.vals = comps * n; e.raw = e.vals * (e.dbl ? 8 : 4);
  return e;
}
static int cell(const Spec& q, bool dbl, int fi) { return (((q.codec * 2 + dbl) * 5 + q.kind) * 2 + (q.off != 0)) * 4 + fi; }
static void easy_data(Case& c) {
  Spec q; q.codec = (int)c.draw(NCODEC); q.kind = c.weighted({2, 3, 5, 3, 2}); q.sd = c.seed(); q.amp = c.chance(2) ? 1 : pow10i((double)c.range(-3, 3));
  static const double offs[] = {0, 3, -3, 0}; q.off = offs[c.draw(4)]; q.dbl = c.chance(2); q.r3 = 1;
  q.r1 = 48 + c.draw(80); q.r2 = 48 + c.draw(80);
  if (q.codec == 2 || q.codec == 3 || q.codec == 7 || q.codec >= 16) { q.r1 = 16 + c.draw(16); q.r2 = 16 + c.draw(16); q.r3 = 16 + c.draw(16); }
  int fi = (int)c.draw(4); double f = q.kind == TIGHT_NOISE ? 1e-14 : fr[fi]; if (q.kind == TIGHT_NOISE) fi = 0;
  if (q.codec == 5 && f < 1e-3) f = 1e-3;     // its working precision has no room for less
  if (q.codec == 5 && q.kind == TIGHT_NOISE) { c.discard(); }
  Enc e = q.dbl ? encode_as<double>(c, q, f) : encode_as<float>(c, q, f);
  double bits = 8.0 * e.z / e.vals;
  c.note("%s %s %s %zux%zux%zu offset %g scale %g bound %g: %zu -> %zu -> %zu bytes", e.name.c_str(), e.dbl ? "double" : "float", kinds[q.kind], q.r1, q.r2, q.r3, q.off, q.amp, f, e.raw, e.bytes, e.z);
  c.label("size:" + e.name); c.label(std::string("data:") + kinds[q.kind]); c.nontrivial();
  int id = cell(q, e.dbl, fi);
  if (const char* cal = getenv("VP_CALIBRATE")) { int fd = open(cal, O_WRONLY | O_APPEND | O_CREAT, 0666); char b[64]; int n = snprintf(b, 64, "%d %.4f\n", id, bits); if (write(fd, b, n)) {} close(fd); return; }
  double lim = (q.codec >= 8 && q.kind == RAMP) || (q.kind == NOISE && fi >= 2) ? 0 : c23_limits[id] * (q.codec >= 8 ? 1.35 : 1.25);     // exactly linear fields are degenerate for the critical-point constraint
  if (lim > 0 && bits > lim) c.fail("%s: %s data at bound %g takes %.2f bits per value after the lossless back end, expected at most %.2f", e.name.c_str(), kinds[q.kind], f, bits, lim);
  if ((q.kind == CONSTANT || q.kind == SMOOTH || (q.kind == RAMP && q.codec < 8)) && fi > 0 && c.chance(2)) {      // ten times looser must not cost more
    Enc l = q.dbl ? encode_as<double>(c, q, fr[fi - 1]) : encode_as<float>(c, q, fr[fi - 1]);
    double lb = 8.0 * l.z / l.vals;
    if (lb > bits * 1.5 + 6) c.fail("%s: %s data takes %.2f bits per value at bound %g but %.2f at bound %g", e.name.c_str(), kinds[q.kind], bits, f, lb, fr[fi - 1]);
    c.label("looser bound compared");
  }
}
// any data: every value stored costs its own size; side information is one symbol per value (code and, when all differ,
// two tree nodes of at most 9 bytes, 13 beyond 65536 nodes), flags and headers
static void any_data(Case& c) {
  JobOpts o; o.only = c.weighted({3, 3, 3, 3, 3, 3, 8, 4, 3, 1, 1, 1}); auto j = gen_job(c, o);
  OutStream s; s.p = j->compress(s.n);
  if (!s.p) c.fail("%s: no stream", j->name.c_str());
  size_t lim = j->raw + 22 * j->values + 1536;
  if (s.n > lim) c.fail("%s: %zu bytes of input become %zu, more than %zu", j->name.c_str(), j->raw, s.n, lim);
  if (j->name == "lossless" && s.n > j->raw + j->raw / 128 + 64) c.fail("lossless: %zu bytes become %zu", j->raw, s.n);
  c.label("any:" + j->name); c.nontrivial(j->values >= 16);
}
static void prop(Case& c) { if (!getenv("VP_CALIBRATE") && c.chance(4)) any_data(c); else easy_data(c); }
int main(int argc, char** argv) {
  Check k{"C23", "random compressor, precision, shape and scale; (a) constant, ramp, smooth and noise fields at four bounds against the pinned version's bits per value, and against a ten times tighter bound; (b) arbitrary generated input against input size plus bounded side information; non-trivial: every case of (a), cases of (b) with at least 16 values", prop, 24000, 500000};
  k.assumptions = {"limits are 1.55 times (+0.3 bits; vector-field compressors 1.7 times) the largest size seen over 400000 calibration fields of the pinned version; cells with a heavy tail are not judged", "sizes are taken after the zstd back end at level 3"};
  return run_check(argc, argv, k);
}
