// C29: a call works in a small stack, whatever the data, bound and shape.  Every call runs on a fresh stack of known
// address; the pages it touched are counted afterwards.
#include "engine.hpp"
#include "ops.hpp"
#include <pthread.h>
#include <unistd.h>
#include <sys/mman.h>
using namespace vp;

static const size_t STACK = 256u << 20, LIMIT = 128u << 10;
template <class F> static void* run_on(void* f) { (*(F*)f)(); return nullptr; }
// runs f on a stack of its own and returns how deep it went, in bytes
template <class F> static size_t depth(Case& c, F f) {
  static char* base = nullptr;
  if (!base) { base = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) abort(); madvise(base, STACK, MADV_NOHUGEPAGE); }
  madvise(base, STACK, MADV_DONTNEED);
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, base, STACK);
  pthread_t t; if (pthread_create(&t, &a, run_on<F>, &f)) abort();
  pthread_join(t, nullptr); pthread_attr_destroy(&a);
  static std::vector<unsigned char> in; size_t pg = 4096, n = STACK / pg; in.resize(n);
  if (mincore(base, STACK, in.data())) abort();
  size_t i = 0; while (i < n && !(in[i] & 1)) i++;
  return (n - i) * pg;
}

static void prop(Case& c) {
  JobOpts o; size_t cap = c.tier ? 1500000 : 400000;
  o.only = c.weighted({4, 4, 4, 2, 3, 3, 16, 7, 5, 2, 2, 2});
  bool grid2 = o.only == F_ABS2 || o.only == F_EB2 || o.only == F_PWR || o.only == F_PWR_EB || o.only == F_CP2, grid3 = o.only == F_ABS3 || o.only == F_EB3 || o.only == F_CP3, mesh = o.only == F_UNSTR;
  size_t n = 4; { int s = (int)c.draw(c.tier ? 17 : 15); size_t top = 16; for (int i = 0; i < s; i++) top = std::min(cap, top * 2); n = 4 + c.draw(top); }   // log-uniform
  if (grid2) { size_t a; switch (c.weighted({3, 3, 3})) { case 0: a = (size_t)sqrt((double)n); break; case 1: a = 2 + c.draw(3); break; default: a = std::max<size_t>(2, n / (2 + c.draw(3))); } a = std::max<size_t>(2, a); o.like[0] = a; o.like[1] = std::max<size_t>(2, n / a); }
  if (grid3) {
    size_t a = std::max<size_t>(2, (size_t)cbrt((double)n)), d[3] = {a, a, std::max<size_t>(2, n / (a * a))}; int k = c.weighted({3, 3, 3});
    if (k) { size_t t = 2 + c.draw(2), u = k == 1 ? 2 + c.draw(2) : std::max<size_t>(2, (size_t)sqrt((double)n / t)); d[0] = t; d[1] = u; d[2] = std::max<size_t>(2, n / (t * u)); }
    int r = (int)c.draw(3); for (int i = 0; i < 3; i++) o.like[i] = d[(i + r) % 3];
  }
  if (mesh) { n = std::max<size_t>(4, n / 3); o.like[1] = n; o.like[2] = c.draw(5) ? n * (1 + c.draw(4)) / 2 : n * 6; if (c.chance(10)) o.like[2] = 1; }
  auto j = gen_job(c, o);
  size_t z = 0; unsigned char* p = nullptr, *b = nullptr; size_t a = depth(c, [&] { p = j->compress(z); }), d = 0;
  if (!p) c.fail("%s: no stream", j->name.c_str());
  if (!j->sided) d = depth(c, [&] { j->decompress(p); });
  free(p);
  c.label(j->values < 256 ? "size:small" : j->values < 5000 ? "size:middle" : "size:large"); c.nontrivial(j->values >= 5000);
  if (const char* f = getenv("VP_CALIBRATE")) { FILE* h = fopen(f, "a"); fprintf(h, "%s %zu %zu %zu\n", j->name.c_str(), j->values, a, d); fclose(h); return; }
  if (a > LIMIT) c.fail("%s, %zu values: compression went %zu bytes deep in the stack, more than %zu", j->name.c_str(), j->values, a, LIMIT);
  if (d > LIMIT) c.fail("%s, %zu values: decompression went %zu bytes deep in the stack, more than %zu", j->name.c_str(), j->values, d, LIMIT);
}
int main(int argc, char** argv) {
  Check k{"C29", "random codec, input, bound and shape (square, thin, long), 4 to 400000 values (thorough: 1500000), log-uniformly; non-trivial when at least 5000 values", prop, 9000, 120000};
  k.cpu_limit_s = 120;
  k.assumptions = {"the depth is that of the pages of the stack a call touched: a big local array no part of which is used does not count", "the limit, 128 KB, is a common default for threads on small systems and ten times what the pinned version needs"};
  return run_check(argc, argv, k);
}
