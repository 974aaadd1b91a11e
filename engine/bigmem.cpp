// Sanitizer builds only: large blocks are recycled instead of being mapped anew for every call (page faults would
// dominate the run), with the same poisoning AddressSanitizer applies.  Linked with --wrap=malloc etc.
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdio>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) ASAN_POISON_MEMORY_REGION(p, n)
#define UNPOISON(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
#else
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#endif
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void __real_free(void*); void* __real_realloc(void*, size_t);
static const size_t BIG = 192 << 10, GAP = 4096; static const int N = 96;
struct Block { char* base; size_t cap; size_t n; bool used; };
static thread_local Block tab[N];
static void* big(size_t n) {
  int best = -1, slot = -1;
  for (int i = 0; i < N; i++) {
    Block& b = tab[i];
    if (!b.base) { if (slot < 0) slot = i; continue; }
    if (!b.used && b.cap >= n && b.cap <= 2 * n && (best < 0 || b.cap < tab[best].cap)) best = i;
  }
  if (best < 0) {
    if (slot < 0) return nullptr;
    size_t cap = 1; while (cap < n) cap *= 2;
    char* p = (char*)__real_malloc(cap + 2 * GAP);
    if (!p) return nullptr;
    tab[slot].base = p; tab[slot].cap = cap; best = slot;
    POISON(p, cap + 2 * GAP);
  }
  Block& b = tab[best]; b.used = true; b.n = n;
  UNPOISON(b.base + GAP, n);
  return b.base + GAP;
}
static Block* find(void* p) { for (int i = 0; i < N; i++) if (tab[i].base && tab[i].base + GAP == (char*)p) return &tab[i]; return nullptr; }
void* __wrap_malloc(size_t n) { if (n >= BIG && n < (256u << 20)) { void* p = big(n); if (p) return p; } return __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) {
  size_t n = a * b;
  if (n >= BIG && n < (256u << 20) && n / b == a) { void* p = big(n); if (p) { memset(p, 0, n); return p; } }
  return __real_calloc(a, b);
}
void __wrap_free(void* p) {
  Block* b = p ? find(p) : nullptr;
  if (!b) { __real_free(p); return; }
  if (!b->used) { fprintf(stderr, "double free of a large block\n"); abort(); }
  b->used = false; POISON(b->base, b->cap + 2 * GAP);
}
void* __wrap_realloc(void* p, size_t n) {
  Block* b = p ? find(p) : nullptr;
  if (!b && n < BIG) return __real_realloc(p, n);
  if (!b) return __real_realloc(p, n);
  void* q = __wrap_malloc(n); if (q) memcpy(q, p, b->n < n ? b->n : n);
  __wrap_free(p); return q;
}
}
