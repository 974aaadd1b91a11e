// C16: flags, scalars, arrays and regression coefficients written one after another read back identically.
#include "engine.hpp"
#include "gen.hpp"
#include "sz_compression_utils.hpp"
#include "sz_decompression_utils.hpp"
#include <memory>
using namespace vp;

struct Item {
  virtual ~Item() {}
  virtual size_t cap() const = 0;
  virtual void write(unsigned char*& p) = 0;
  virtual void read(Case& c, const unsigned char*& p) = 0;
};
struct Flags : Item {
  std::vector<unsigned char> f;
  Flags(Case& c) {
    size_t n = 1 + (c.chance(3) ? c.draw_len(5000) : c.draw(70)); int kind = c.weighted({3, 1, 1, 2, 1}); unsigned one_in = 2 + c.draw(20); Rng r(c.seed());
    f.resize(n);
    for (size_t i = 0; i < n; i++) f[i] = kind == 0 ? r.below(2) : kind == 1 ? 0 : kind == 2 ? 1 : kind == 3 ? r.below(one_in) == 0 : i == n - 1;
    c.note("flags(%zu)", n); c.label("item:flags"); c.label("flags mod 8: " + std::to_string(n % 8));
  }
  size_t cap() const override { return f.size() / 8 + 1; }
  void write(unsigned char*& p) override { convertIntArray2ByteArray_fast_1b_to_result_sz(f.data(), f.size(), p); }
  void read(Case& c, const unsigned char*& p) override {
    unsigned char* d = convertByteArray2IntArray_fast_1b_sz(f.size(), p, (f.size() - 1) / 8 + 1);
    for (size_t i = 0; i < f.size(); i++) if (d[i] != f[i]) c.fail("flag %zu of %zu: %u came back as %u", i, f.size(), f[i], d[i]);
    free(d);
  }
};
template <class T> struct Scalar : Item {
  T v; const char* name;
  Scalar(Case& c, const char* n) : name(n) { uint64_t a = c.draw(2) ? mix64(c.seed()) : c.draw(5); memcpy(&v, &a, sizeof(T)); c.note("%s", n); c.label("item:scalar"); }
  size_t cap() const override { return sizeof(T); }
  void write(unsigned char*& p) override { write_variable_to_dst(p, v); }
  void read(Case& c, const unsigned char*& p) override { T d; memset(&d, 0x77, sizeof d); read_variable_from_src(p, d); if (memcmp(&d, &v, sizeof d)) c.fail("%s scalar changed", name); }
};
template <class T> struct Array : Item {
  std::vector<T> v; const char* name;
  Array(Case& c, const char* nm) : name(nm) { size_t n = c.draw_len(c.chance(400) ? 200000 : 3000); Rng r(c.seed()); v.resize(n); for (auto& x : v) { uint64_t a = r.next(); memcpy(&x, &a, sizeof(T)); } c.note("%s[%zu]", nm, n); c.label("item:array"); }
  size_t cap() const override { return v.size() * sizeof(T); }
  void write(unsigned char*& p) override { write_array_to_dst(p, v.data(), v.size()); }
  void read(Case& c, const unsigned char*& p) override { T* d = read_array_from_src<T>(p, v.size()); if (v.size() && memcmp(d, v.data(), v.size() * sizeof(T))) c.fail("%s array of %zu changed", name, v.size()); free(d); }
};
struct Coeffs : Item {
  bool d3; size_t count; int block; double precision; std::vector<float> fitted, used; std::vector<int> type; std::vector<float> unpred; size_t unpred_n = 0; std::vector<double> prec;
  int N() const { return d3 ? RegCoeffNum3d : RegCoeffNum2d; }
  Coeffs(Case& c) {
    d3 = c.chance(2); count = 1 + c.draw_size(400); block = 1 + (int)c.draw(16); precision = pow10i(-6 + 8 * c.unit());
    int kind = c.weighted({3, 2, 2, 2}); double amp = pow10i(-3 + 8 * c.unit()); Rng r(c.seed());
    static const char* names[] = {"smooth", "noise", "jumps", "exact-steps"};
    fitted.resize(count * N());
    double ph[4] = {r.unit(), r.unit(), r.unit(), r.unit()};
    for (size_t i = 0; i < count; i++) for (int j = 0; j < N(); j++) {
      double x = kind == 0 ? amp * 0.01 * std::sin(0.1 * i + ph[j]) : kind == 1 ? amp * r.sym() : kind == 2 ? (r.below(10) ? amp * 0.001 * r.sym() : amp * 1e5 * r.sym()) : precision * (double)((int)r.below(9) - 4) * 0.05;
      fitted[i * N() + j] = (float)x;
    }
    c.note("coefficients(%s %zu x%d block %d precision %g amp %g)", names[kind], count, N(), block, precision, amp); c.label(std::string("item:coefficients-") + (d3 ? "3d-" : "2d-") + names[kind]);
    // as the compressors do it
    float rel = RegErrThreshold * precision / N(); prec.resize(N());
    for (int j = 0; j < N() - 1; j++) prec[j] = rel / block;
    prec[N() - 1] = rel;
    used.assign((count + 1) * N(), 0.0f); type.assign(count * N(), 0); unpred.assign(count * N() + 1, 0.0f);
    float* up = unpred.data();
    for (size_t i = 0; i < count; i++) {
      float* pos = used.data() + (i + 1) * N();
      memcpy(pos, fitted.data() + i * N(), N() * sizeof(float));
      if (d3) compress_regression_coefficient_3d(prec.data(), pos, type.data() + i * N(), up); else compress_regression_coefficient_2d(prec.data(), pos, type.data() + i * N(), up);
      for (int j = 0; j < N(); j++) {
        double e = std::fabs((double)pos[j] - (double)fitted[i * N() + j]);
        if (!(e <= prec[j] * (1 + 1e-6))) c.fail("coefficient %zu.%d: %.9g is predicted with as %.9g, further than its precision %.9g", i, j, fitted[i * N() + j], pos[j], prec[j]);
      }
    }
    unpred_n = up - unpred.data();
    if (unpred_n) c.label("coefficients: some unpredictable");
  }
  size_t cap() const override { return 5000 + 40 * count * N() + 8 * count * N(); }
  void write(unsigned char*& p) override { if (d3) encode_regression_coefficients(type.data(), unpred.data(), count, unpred_n, p); else encode_regression_coefficients_2d(type.data(), unpred.data(), count, unpred_n, p); }
  void read(Case& c, const unsigned char*& p) override {
    float* d = d3 ? decode_regression_coefficients(p, count, block, precision) : decode_regression_coefficients_2d(p, count, block, precision);
    for (size_t i = 0; i < count; i++) for (int j = 0; j < N(); j++) {
      float a = used[(i + 1) * N() + j], b = d[(i + 1) * N() + j];
      if (a != b && !(std::fabs((double)a - b) <= 4e-7 * std::fabs((double)a) + 1e-3 * prec[j])) c.fail("coefficient %zu.%d of %zu: encoder used %.9g, decoder has %.9g", i, j, count, a, b);
    }
    free(d);
  }
};
static void prop(Case& c) {
  size_t n = 1 + c.draw(8); std::vector<std::unique_ptr<Item>> v; size_t cap = 4096;
  for (size_t i = 0; i < n; i++) {
    Item* it = nullptr;
    switch (c.weighted({5, 2, 3, 3})) {
      case 0: it = new Flags(c); break;
      case 1: switch (c.draw(6)) { case 0: it = new Scalar<int>(c, "int"); break; case 1: it = new Scalar<size_t>(c, "size_t"); break; case 2: it = new Scalar<double>(c, "double"); break; case 3: it = new Scalar<float>(c, "float"); break; case 4: it = new Scalar<unsigned char>(c, "byte"); break; default: it = new Scalar<unsigned int>(c, "unsigned"); } break;
      case 2: switch (c.draw(4)) { case 0: it = new Array<float>(c, "float"); break; case 1: it = new Array<double>(c, "double"); break; case 2: it = new Array<int>(c, "int"); break; default: it = new Array<unsigned char>(c, "byte"); } break;
      case 3: it = new Coeffs(c); break;
    }
    v.emplace_back(it); cap += it->cap();
  }
  std::vector<unsigned char> buf(cap); Rng g(c.seed()); for (auto& b : buf) b = (unsigned char)g.next();
  unsigned char* p = buf.data(); std::vector<size_t> ends;
  for (auto& it : v) { it->write(p); ends.push_back(p - buf.data()); }
  if ((size_t)(p - buf.data()) > cap) c.fail("more bytes written than any item needs");
  unsigned char* e = exact_copy(buf.data(), ends.back()); const unsigned char* rp = e;
  for (size_t i = 0; i < n; i++) { v[i]->read(c, rp); if ((size_t)(rp - e) != ends[i]) c.fail("item %zu of %zu: the reader stopped at byte %zu, the writer at %zu", i, n, (size_t)(rp - e), ends[i]); }
  free(e);
  c.nontrivial(n >= 2);
}
int main(int argc, char** argv) {
  Check k{"C16", "random sequences of 1-8 items (flag bitmaps, scalars, arrays, 2D/3D regression coefficients); non-trivial when at least two items", prop, 60000, 1000000};
  return run_check(argc, argv, k);
}
