// Entry points of the frozen copy of the library (ref/src, ref/include; see ref/COMMIT). Everything else in the
// shared object is hidden, so that the copy and the current tree live side by side in one process.
#include "ops.hpp"
using namespace vp;
template <class F> static void with(Job* j, F f) {
  switch (j->tag) {
    case 2 * F_ABS2: f((Abs2Job*)j); break;
    case 2 * F_ABS3: f((Abs3Job<float>*)j); break;
    case 2 * F_ABS3 + 1: f((Abs3Job<double>*)j); break;
    case 2 * F_EB2: case 2 * F_EB3: f((Eb2Job<float>*)j); break;
    case 2 * F_EB2 + 1: case 2 * F_EB3 + 1: f((Eb2Job<double>*)j); break;
    case 2 * F_PWR: case 2 * F_PWR_EB: f((PwrJob*)j); break;
    case 2 * F_CP2: f((Cp2Job<float>*)j); break;
    case 2 * F_CP2 + 1: f((Cp2Job<double>*)j); break;
    case 2 * F_CP3: f((Cp3Job<float>*)j); break;
    case 2 * F_CP3 + 1: f((Cp3Job<double>*)j); break;
    case 2 * F_UNSTR: f((UnstrJob<float>*)j); break;
    case 2 * F_UNSTR + 1: f((UnstrJob<double>*)j); break;
    case 2 * F_HUFF: case 2 * F_TREE: f((HuffJob*)j); break;
    default: f((ZstdJob*)j); break;
  }
}
struct Comp { unsigned char* p; size_t n; template <class J> void operator()(J* j) { p = j->J::compress(n); } };
struct Dec { const unsigned char* s; Bytes* out; template <class J> void operator()(J* j) { *out = j->J::decompress(s); } };
extern "C" __attribute__((visibility("default"))) unsigned char* vp_ref_compress(Job* j, size_t* n) { Comp c{nullptr, 0}; with(j, [&](auto* k) { c(k); }); *n = c.n; return c.p; }
extern "C" __attribute__((visibility("default"))) void vp_ref_decompress(Job* j, const unsigned char* s, Bytes* out) { Dec d{s, out}; with(j, [&](auto* k) { d(k); }); }
