// C19: the variable-bound quantiser reproduces exactly what it recorded; the interpolators are exact on polynomials.
#include "engine.hpp"
#include "gen.hpp"
#include <cassert>
#include <vector>
#include "sz3_utils.hpp"
using namespace vp;

template <class T> static void batch(Case& c, VariableEBLinearQuantizer<T, double>& q, int radius, bool reload) {
  size_t n = 1 + (c.chance(3) ? c.draw(2000) : c.draw(20)); uint64_t sd = c.seed(); Rng r(sd);
  int kind = c.weighted({4, 2, 2}); double mag = pow10i(-6 + 12 * c.unit()), ebm = pow10i(-8 + 9 * c.unit()) * mag;
  bool explicit_small = n <= 8;
  std::vector<T> val(n), pred(n), over(n); std::vector<double> eb(n); std::vector<int> idx(n);
  size_t exact = 0, quant = 0;
  for (size_t i = 0; i < n; i++) {
    pred[i] = (T)(mag * r.sym());
    eb[i] = r.below(8) == 0 ? 0 : kind == 0 ? ebm : ebm * pow10i(-3 + 6 * r.unit());
    int rel = (int)r.below(8);
    double k = (double)((int64_t)r.below(2 * (uint64_t)radius + 9) - radius - 4);
    if (rel < 3) val[i] = (T)(pred[i] + eb[i] * 20 * r.sym());
    else if (rel == 3) val[i] = (T)(pred[i] + 2 * eb[i] * k);                       // middle of a bin, also the outermost
    else if (rel == 4) val[i] = (T)(pred[i] + eb[i] * (2 * k + (r.below(2) ? 1 : -1)));     // edge of a bin
    else if (rel == 5) val[i] = pred[i];
    else if (rel == 6) val[i] = (T)(mag * 1e3 * r.sym());
    else val[i] = (T)(mag * pow10i(-20 + 36 * r.unit()) * (r.below(2) ? 1 : -1));
    if (kind == 2) val[i] = (T)(mag * r.sym());
    if (explicit_small) c.note("(%.9g|%.9g|%.9g)", (double)val[i], (double)pred[i], eb[i]);
    T v = val[i];
    int expect = q.quantize(v, pred[i], eb[i]);
    if (r.below(2)) idx[i] = q.quantize_and_overwrite(v, pred[i], eb[i]);
    else { T dest = (T)12345; idx[i] = q.quantize_and_overwrite(v, pred[i], eb[i], dest); if (!same_bits(v, val[i])) c.fail("the original was overwritten"); v = dest; }
    over[i] = v;
    if (expect != idx[i]) c.fail("value %zu: quantize says %d, quantize_and_overwrite %d", i, expect, idx[i]);
    if (idx[i] < 0 || idx[i] >= 2 * radius) c.fail("value %zu: index %d outside [0,%d)", i, idx[i], 2 * radius);
    double e = std::fabs((double)v - (double)val[i]);
    if (idx[i] == 0) { exact++; if (!same_bits(v, val[i])) c.fail("value %zu: recorded as unpredictable but %.17g became %.17g", i, (double)val[i], (double)v); }
    else { quant++; if (!(e <= eb[i] * (1 + 1e-6))) c.fail("value %zu: %.17g became %.17g, error %.9g exceeds its bound %.9g", i, (double)val[i], (double)v, e, eb[i]); }
    if (eb[i] == 0 && !same_bits(v, val[i])) c.fail("value %zu: zero bound but %.17g became %.17g", i, (double)val[i], (double)v);
    // near predictions are quantised, not stored
    double diff = std::fabs((double)val[i] - (double)pred[i]), ulp = (sizeof(T) == 4 ? 1.2e-7 : 2.3e-16) * (std::fabs((double)val[i]) + std::fabs((double)pred[i]));
    if (eb[i] > 0 && idx[i] == 0 && diff < eb[i] * (2.0 * radius - 3) * (1 - 1e-6) && ulp * 4 < eb[i] * 1e-3 && diff > 0 && std::fabs(std::fmod(diff / eb[i], 2.0) - 1) > 0.01) c.fail("value %zu: %.17g with prediction %.17g and bound %.9g is within range but was not quantised", i, (double)val[i], (double)pred[i], eb[i]);
  }
  c.label(exact ? (quant ? "batch:mixed" : "batch:all-exact") : "batch:all-quantised");
  c.nontrivial(exact > 0 && quant > 0);
  std::vector<unsigned char> buf(64 + n * sizeof(T) + 64, 0xcd); unsigned char* p = buf.data() + (c.chance(4) ? c.draw(8) : 0); unsigned char* start = p;
  if (q.size_est() != exact * sizeof(T)) c.fail("size estimate %zu for %zu stored values", q.size_est(), exact);
  q.save(p);
  size_t written = p - start;
  if (written > 32 + exact * sizeof(T)) c.fail("%zu bytes written for %zu stored values", written, exact);
  for (size_t i = 0; i < n; i++) {}
  auto recover_all = [&](VariableEBLinearQuantizer<T, double>& d, const char* how) {
    for (size_t i = 0; i < n; i++) {
      T v = d.recover(pred[i], idx[i], eb[i]);
      if (!same_bits(v, over[i]) && !(idx[i] && std::fabs((double)v - (double)over[i]) <= (sizeof(T) == 4 ? 3e-7 : 6e-16) * (std::fabs((double)v) + std::fabs((double)pred[i])))) c.fail("%s: value %zu of %zu (index %d, prediction %.17g, bound %.9g) recovered as %.17g, the encoder has %.17g", how, i, n, idx[i], (double)pred[i], eb[i], (double)v, (double)over[i]);
    }
  };
  if (reload || c.chance(4)) {
    VariableEBLinearQuantizer<T, double> d(c.draw(2) ? 32768 : 7);
    if (c.chance(3)) { T junk = 5; d.quantize_and_overwrite(junk, (T)1, 0.0); if (c.draw(2)) d.recover_unpred(); }   // used before
    const unsigned char* rp = start; size_t rem = written + 64;
    d.load(rp, rem);
    if ((size_t)(rp - start) != written) c.fail("save wrote %zu bytes, load consumed %zu", written, (size_t)(rp - start));
    if (d.get_radius() != radius) c.fail("radius %d came back as %d", radius, d.get_radius());
    recover_all(d, "after save and load");
    const unsigned char* rp2 = start; d.load(rp2, rem); recover_all(d, "after loading again");
    c.label("recover:loaded");
  }
  recover_all(q, "same object"); c.label("recover:same object");
}
template <class T> static void go(Case& c) {
  if (c.chance(10)) {     // interpolators: exact on polynomials of their degree, nodes at 0, 2, 4, 6
    double k[4]; for (auto& x : k) x = (double)c.range(-50, 50) / 4;
    auto f = [&](double x, int deg) { double s = 0; for (int i = deg; i >= 0; i--) s = s * x + k[i]; return (T)s; };
    struct { const char* n; T got, want; } t[] = {
      {"interp_linear", interp_linear<T>(f(0, 1), f(2, 1)), f(1, 1)}, {"interp_quad_1", interp_quad_1<T>(f(0, 2), f(2, 2), f(4, 2)), f(1, 2)},
      {"interp_quad_2", interp_quad_2<T>(f(0, 2), f(2, 2), f(4, 2)), f(3, 2)}, {"interp_cubic", interp_cubic<T>(f(0, 3), f(2, 3), f(4, 3), f(6, 3)), f(3, 3)}};
    c.note("polynomial %g %g %g %g", k[0], k[1], k[2], k[3]); c.label("interpolators"); c.nontrivial(k[1] != 0 || k[2] != 0 || k[3] != 0);
    double S = 0; for (int i = 0; i < 4; i++) S += std::fabs(k[i]) * std::pow(6.0, i);
    for (auto& x : t) if (!(std::fabs((double)x.got - (double)x.want) <= (sizeof(T) == 4 ? 3e-6 : 1e-13) * (1 + S))) c.fail("%s gives %.9g for a polynomial whose value is %.9g", x.n, (double)x.got, (double)x.want);
    return;
  }
  static const int rad[] = {32768, 2, 4, 16, 512, 3, 65536}; int radius = rad[c.draw(7)];
  VariableEBLinearQuantizer<T, double> q(radius);
  c.note("radius=%d %s", radius, sizeof(T) == 4 ? "float" : "double");
  int rounds = 1 + (int)c.draw(3);
  for (int i = 0; i < rounds; i++) { batch(c, q, radius, i == 0); q.clear(); }
  if (rounds > 1) c.label("reused after clear");
}
static void prop(Case& c) { if (c.chance(2)) go<double>(c); else go<float>(c); }
int main(int argc, char** argv) {
  Check k{"C19", "random histories of quantise (both forms), save, load (fresh, used, twice), recover, clear over random radius, values, predictions and bounds; non-trivial when a batch holds both quantised and stored values", prop, 150000, 3000000};
  return run_check(argc, argv, k);
}
