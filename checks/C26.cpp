// C26: streams written by the frozen copy of the library (ref/) decode to the same values with the current tree;
// streams of 3D data with per-point bounds are read by an independent reader.
// ref: 1
#include "engine.hpp"
#include "ops.hpp"
#include "c26_reader.hpp"
using namespace vp;
extern "C" unsigned char* vp_ref_compress(Job*, size_t*);
extern "C" void vp_ref_decompress(Job*, const unsigned char*, Bytes*);

template <class T> static size_t compare(Case& c, const Job& j, const Bytes& want, const Bytes& got, int mode, double eb) {
  size_t n = want.size() / sizeof(T), ne = 0; const T *a = (const T*)want.data(), *b = (const T*)got.data();
  double am = 0; for (size_t i = 0; i < n; i++) if (std::isfinite(a[i])) am = std::max(am, std::fabs((double)a[i]));
  for (size_t i = 0; i < n; i++) {
    if (same_bits(a[i], b[i])) continue;
    ne++;
    double d = std::fabs((double)a[i] - (double)b[i]), m = std::max(std::fabs((double)a[i]), std::fabs((double)b[i]));
    bool ok = mode == ABS ? d <= 1e-4 * eb + 2e-6 * am : (a[i] == 0) == (b[i] == 0) && (a[i] < 0) == (b[i] < 0) && d <= (1e-3 * eb + 1e-5) * m;
    if (!ok) c.fail("%s: archived value %zu of %zu decodes to %.17g, it was %.17g when it was written (bound %g)", j.name.c_str(), i, n, (double)b[i], (double)a[i], eb);
  }
  return ne;
}
template <class T> static void per_point_3d(Case& c, Eb2Job<T>& j) {
  OutStream s; s.p = j.Eb2Job<T>::compress(s.n);
  unsigned char* e = exact_copy(s.p, s.n);
  std::vector<T> d; std::string err = c26::read_3d_with_eb(e, s.n, j.e.keep.data(), j.r1, j.r2, j.r3, d); free(e);
  if (!err.empty()) c.fail("%s: the stream cannot be read: %s", j.name.c_str(), err.c_str());
  size_t exact = 0;
  for (size_t i = 0; i < j.values; i++) {
    if (same_bits(d[i], j.a.keep[i])) { exact++; continue; }
    double q = std::fabs((double)d[i] - (double)j.a.keep[i]);
    if (!(q <= j.e.keep[i] * (1 + 1e-6))) c.fail("%s: value %zu: original %.17g reads back as %.17g, error %.9g exceeds its bound %.9g", j.name.c_str(), i, (double)j.a.keep[i], (double)d[i], q, j.e.keep[i]);
  }
  c.nontrivial(j.values >= 8 && exact < j.values);
}
static int mode_of(const Job* j) {
  switch (j->tag / 2) {
    case F_PWR: case F_PWR_EB: case F_UNSTR: return LOG;
    case F_CP2: return j->tag & 1 ? codecs2<double>()[((Cp2Job<double>*)j)->ki].bound : codecs2<float>()[((Cp2Job<float>*)j)->ki].bound;
    case F_CP3: return j->tag & 1 ? codecs3<double>()[((Cp3Job<double>*)j)->ki].bound : codecs3<float>()[((Cp3Job<float>*)j)->ki].bound;
    default: return ABS;
  }
}
static void prop(Case& c) {
  JobOpts o; if (c.tier) { o.cap2 = 20000; o.cap3 = 20000; }
  auto j = gen_job(c, o); int f = j->tag / 2;
  if (f == F_EB3) { if (j->tag & 1) per_point_3d(c, *(Eb2Job<double>*)j.get()); else per_point_3d(c, *(Eb2Job<float>*)j.get()); return; }
  OutStream s; s.p = vp_ref_compress(j.get(), &s.n);
  if (!s.p) c.discard();
  Bytes want; vp_ref_decompress(j.get(), s.p, &want);
  if (want.size() != j->raw) c.discard();
  Bytes got = j->decompress(s.p);
  if (got.size() != want.size()) c.fail("%s: an archived stream decodes to %zu bytes instead of %zu", j->name.c_str(), got.size(), want.size());
  if (f >= F_HUFF) { if (got != want) c.fail("%s: an archived stream decodes to something else", j->name.c_str()); c.nontrivial(j->values >= 2); return; }
  double eb = j->eb_settable ? j->eb : f == F_EB2 ? 0 : 1e-6;
  if (f == F_EB2) { const std::vector<double>& e = j->tag & 1 ? ((Eb2Job<double>*)j.get())->e.keep : ((Eb2Job<float>*)j.get())->e.keep; eb = *std::min_element(e.begin(), e.end()); }
  if (j->tag & 1) compare<double>(c, *j, want, got, mode_of(j.get()), eb); else compare<float>(c, *j, want, got, mode_of(j.get()), eb);
  // non-trivial: some value was decoded from an index, not copied
  c.nontrivial(j->values >= 4 && want != j->original());
}
int main(int argc, char** argv) {
  Check k{"C26", "random entry point, input, shape and bound; the stream is written by the frozen copy of the library and decoded by the frozen and the current decoder (3D per-point streams: written by the current compressor and read by an independent reader); non-trivial when at least 4 values and not all of them stored verbatim", prop, 25000, 500000};
  k.assumptions = {"archived streams are those of the frozen copy in ref/ (the pinned version with its repairs)", "values agree up to 1e-4 of the bound plus 2e-6 of the largest magnitude (relative codecs: 1e-3 of the bound plus 1e-5 of the value)"};
  return run_check(argc, argv, k);
}
