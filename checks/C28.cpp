// C28: the steps of a call and the memory it asks for stay within a start-up cost plus a constant times the size of the
// input.  Steps are basic blocks of the library executed, counted by instrumentation (flavour "count" of run.py), so the
// outcome does not depend on the load of the machine.
#include "engine.hpp"
#include "ops.hpp"
#include <unistd.h>
#include "c28_limits.hpp"
using namespace vp;

extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); }
static uint64_t g_steps = 0, g_bytes = 0;
extern "C" {
void __sanitizer_cov_trace_pc() { g_steps++; }
void* __real_memset(void*, int, size_t); void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t);
void* __wrap_memset(void* p, int c, size_t n) { g_steps += n / 64; return __real_memset(p, c, n); }   // also counted: a step per 64 bytes
void* __wrap_memcpy(void* p, const void* q, size_t n) { g_steps += n / 64; return __real_memcpy(p, q, n); }
void* __wrap_memmove(void* p, const void* q, size_t n) { g_steps += n / 64; return __real_memmove(p, q, n); }
void* malloc(size_t n) { g_bytes += n; return __libc_malloc(n); }
void* calloc(size_t a, size_t b) { g_bytes += a * b; return __libc_calloc(a, b); }
void* realloc(void* q, size_t n) { g_bytes += n; return __libc_realloc(q, n); }
}
struct Cost { double steps, bytes; };
static void begin() { g_steps = g_bytes = 0; }
static Cost end() { return {(double)g_steps, (double)g_bytes}; }
static const char* const what[4] = {"steps of compression", "bytes asked for in compression", "steps of decompression", "bytes asked for in decompression"};

static void prop(Case& c) {
  JobOpts o; size_t cap = c.tier ? 120000 : 40000;
  o.only = c.weighted({4, 4, 4, 2, 3, 3, 16, 7, 5, 2, 2, 0});
  bool grid2 = o.only == F_ABS2 || o.only == F_EB2 || o.only == F_PWR || o.only == F_PWR_EB || o.only == F_CP2, grid3 = o.only == F_ABS3 || o.only == F_EB3 || o.only == F_CP3, mesh = o.only == F_UNSTR;
  size_t n = 4; { int s = (int)c.draw(c.tier ? 14 : 12); size_t top = 16; for (int i = 0; i < s; i++) top = std::min(cap, top * 2); if (c.chance(5)) top = cap; n = 4 + c.draw(top); }   // log-uniform
  if (grid2) { size_t a; switch (c.weighted({4, 2, 2})) { case 0: a = (size_t)sqrt((double)n); break; case 1: a = 2 + c.draw(3); break; default: a = std::max<size_t>(2, n / (2 + c.draw(3))); } a = std::max<size_t>(2, a); o.like[0] = a; o.like[1] = std::max<size_t>(2, n / a); }
  if (grid3) {
    size_t a = std::max<size_t>(2, (size_t)cbrt((double)n)), d[3] = {a, a, std::max<size_t>(2, n / (a * a))}; int k = c.weighted({4, 2, 2});
    if (k) { size_t t = 2 + c.draw(2), u = k == 1 ? 2 + c.draw(2) : std::max<size_t>(2, (size_t)sqrt((double)n / t)); d[0] = t; d[1] = u; d[2] = std::max<size_t>(2, n / (t * u)); }
    int r = (int)c.draw(3); for (int i = 0; i < 3; i++) o.like[i] = d[(i + r) % 3];
  }
  if (mesh) { n = std::max<size_t>(4, n / 3); o.like[1] = n; o.like[2] = c.draw(5) ? n * (1 + c.draw(4)) / 2 : n * 6; if (c.chance(10)) o.like[2] = 1; }
  auto j = gen_job(c, o);
  double size = (double)j->values + (mesh ? 4.0 * j->shape[2] : 0);
  size_t z = 0; begin(); unsigned char* p = j->compress(z); Cost a = end(), d = {0, 0};
  if (!p) c.fail("%s: no stream", j->name.c_str());
  if (!j->sided) { begin(); j->decompress(p); d = end(); }
  free(p);
  int cell = j->tag * 8 + std::max(0, j->codec); double got[4] = {a.steps, a.bytes, d.steps, d.bytes};
  c.label(size < 256 ? "size:small" : size < 2500 ? "size:middle" : "size:large"); c.nontrivial(size >= 256);
  if (const char* f = getenv("VP_CALIBRATE")) { FILE* h = fopen(f, "a"); fprintf(h, "%d %g %g %g %g %g %s\n", cell, size, got[0], got[1], got[2], got[3], j->name.c_str()); fclose(h); return; }
  for (int i = 0; i < 4; i++) {
    double lim = c28_limits[cell][i][0] + c28_limits[cell][i][1] * size;
    if (lim > 0 && got[i] > lim) c.fail("%s, %g values: %.0f %s, more than %.0f", j->name.c_str(), size, got[i], what[i], lim);
  }
}
int main(int argc, char** argv) {
  Check k{"C28", "random codec, input, bound and shape (square, thin, long), 4 to 40000 values (thorough: 120000), log-uniformly; non-trivial when at least 256 values", prop, 9000, 100000};
  k.cpu_limit_s = 120;
  k.assumptions = {"steps are basic blocks of the library executed, memory is what it asks malloc, calloc and realloc for; both counted, not timed", "a call may cost up to twice the start-up cost plus three times the cost per value that any calibration case of the pinned version needed (c28_limits.hpp)", "memset, memcpy and memmove count a step per 64 bytes; the lossless back end is not judged"};
  return run_check(argc, argv, k);
}
