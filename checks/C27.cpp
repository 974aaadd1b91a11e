// C27: a call leaves nothing on the heap besides what it returns, and releases the arrays its output replaces.
// malloc and its relatives (also behind operator new) are replaced by counters in this executable.
#include "engine.hpp"
#include "ops.hpp"
#include "sz_compression_utils.hpp"
#include "utils.hpp"
#include "sz3_utils.hpp"
#include <cerrno>
#include <unistd.h>
using namespace vp;

extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
static long g_live = 0;       // blocks; a check is one thread
static void* counted(void* p) { if (p) g_live++; return p; }
extern "C" {
void* malloc(size_t n) { return counted(__libc_malloc(n)); }
void* calloc(size_t a, size_t b) { return counted(__libc_calloc(a, b)); }
void* memalign(size_t a, size_t n) { return counted(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return counted(__libc_memalign(a, n)); }
int posix_memalign(void** p, size_t a, size_t n) { *p = counted(__libc_memalign(a, n)); return *p ? 0 : ENOMEM; }
void* realloc(void* q, size_t n) { if (q) g_live--; void* p = __libc_realloc(q, n); if (q && !p && n) g_live++; return counted(p); }
void free(void* p) { if (p) g_live--; __libc_free(p); }
}

static void balance(Case& c, const char* what, const std::string& name, long before, long expected, int round) {
  long d = g_live - before;
  if (d != expected) c.fail("%s: call %d of the %s leaves %ld blocks on the heap, %ld expected", name.c_str(), round, what, d, expected);
}
template <class T> static void files(Case& c) {
  size_t n = 1 + c.draw_size(4000); Rng r(c.seed()); std::vector<T> v(n); for (auto& x : v) x = (T)r.next();
  char path[64]; snprintf(path, sizeof path, "/tmp/vp-c27-%d.dat", (int)getpid());
  writefile(path, v.data(), n); size_t m = 0; T* w = readfile<T>(path, m); free(w);
  for (int k = 0; k < 3; k++) {
    long a = g_live; writefile(path, v.data(), n); balance(c, "file writer", "files", a, 0, k);
    a = g_live; w = readfile<T>(path, m); if (!w) { unlink(path); c.fail("the file was not read"); } balance(c, "file reader", "files", a, 1, k); free(w);
  }
  unlink(path); c.label("codec:files"); c.note("file of %zu values of %zu bytes", n, sizeof(T)); c.nontrivial(n > 1);
}
template <class T> static void quantizer(Case& c) {
  size_t n = 1 + c.draw_size(3000); Rng r(c.seed()); int rounds = 2 + (int)c.draw(3);
  std::vector<unsigned char> buf(64 + n * sizeof(T) + 64); std::vector<int> q(n);
  for (int k = 0; k < rounds; k++) {
    long a = g_live;
    {
      VariableEBLinearQuantizer<T, T> z(65536), y(65536); Rng s = r;
      for (size_t i = 0; i < n; i++) { T x = (T)((s.unit() - 0.5) * 10); q[i] = z.quantize_and_overwrite(x, (T)0, s.below(4) ? 1e-2 : 1e-9); }
      unsigned char* p = buf.data(); z.save(p); const unsigned char* u = buf.data(); size_t left = buf.size(); y.load(u, left); s = r;
      for (size_t i = 0; i < n; i++) { s.unit(); y.recover((T)0, q[i], s.below(4) ? 1e-2 : 1e-9); }
    }
    balance(c, "quantiser", "quantiser", a, 0, k);
  }
  c.label("codec:quantiser"); c.note("quantiser, %zu values of %zu bytes, %d rounds", n, sizeof(T), rounds); c.nontrivial(n > 4);
}
static void trees(Case& c) {   // code trees of every node width: up to 128, 32768 and more symbols
  static const int ks[] = {1, 2, 100, 129, 3000, 20000, 32769, 50000}; int k = ks[c.weighted({2, 2, 2, 3, 3, 2, 3, 2})]; bool with_tree = c.chance(2);
  size_t n = k + c.draw_size(3000); Rng r(c.seed()); std::vector<int> v(n); for (size_t i = 0; i < n; i++) v[i] = (int)(i < (size_t)k ? i : r.below(k));
  std::string name = "huffman with " + std::to_string(k) + " symbols";
  for (int q = 0; q < 3; q++) {
    long a = g_live; size_t z = 0; unsigned char* out = nullptr;
    if (with_tree) { HuffmanTree* t = createHuffmanTree(65536); encode_withTree(t, v.data(), n, &out, &z); SZ_ReleaseHuffman(t); }
    else { out = (unsigned char*)malloc(64 + 30 * (size_t)k + 8 * n); unsigned char* p = out; Huffman_encode_tree_and_data(65536, v.data(), n, p); }
    if (q) balance(c, "encoder", name, a, 1, q);
    a = g_live;
    if (with_tree) { std::vector<int> d(n); HuffmanTree* t = createHuffmanTree(65536); decode_withTree(t, out, n, d.data()); SZ_ReleaseHuffman(t); }
    else { const unsigned char* p = out; int* d = Huffman_decode_tree_and_data(65536, n, p); free(d); }
    if (q) balance(c, "decoder", name, a, 0, q);
    free(out);
  }
  c.label(with_tree ? "codec:huffman-withTree" : "codec:huffman"); c.label(k <= 128 ? "tree:char" : k <= 32768 ? "tree:short" : "tree:int"); c.note("%s, %zu values", name.c_str(), n); c.nontrivial();
}
static void prop(Case& c) {
  int w = c.weighted({40, 1, 2, 1});
  if (w == 3) { trees(c); return; }
  if (w == 1) { switch (c.draw(3)) { case 0: files<float>(c); break; case 1: files<double>(c); break; default: files<int>(c); } return; }
  if (w == 2) { if (c.chance(2)) quantizer<double>(c); else quantizer<float>(c); return; }
  JobOpts o; if (c.tier) { o.cap2 = 12000; o.cap3 = 10000; } else { o.cap2 = 1500; o.cap3 = 1200; }
  if (c.chance(8)) { o.wide = true; c.label("range:wide"); }
  o.reuse_out = c.chance(2); if (o.reuse_out) o.mixed = c.chance(3);
  c.label(o.mixed ? "outputs:some replaced" : o.reuse_out ? "outputs:replaced" : "outputs:fresh");
  auto j = gen_job(c, o);
  int rounds = 2 + (int)c.draw(2); c.nontrivial(j->values >= 8);
  { size_t n = 0; unsigned char* p = j->compress(n); if (!p) c.fail("%s: no stream", j->name.c_str()); if (!j->sided) j->decompress(p); free(p); }   // what is made once
  for (int k = 0; k < rounds; k++) {
    size_t n = 0; long a = g_live; unsigned char* p = j->compress(n); balance(c, "compressor", j->name, a, 1, k);
    if (!j->sided) { a = g_live; j->decompress(p); balance(c, "decompressor", j->name, a, 0, k); }
    free(p);
  }
}
int main(int argc, char** argv) {
  Check k{"C27", "random entry point (all compressors and decompressors, the coders, the interpolation quantiser, file readers and writers), input, shape and bound, called several times while the blocks on the heap are counted; non-trivial when at least 8 values", prop, 16000, 300000};
  k.cpu_limit_s = 60;
  k.assumptions = {"what the first call of a kind makes for later ones (a table, a buffer of standard output) is not counted, growth from then on is", "compressors return one block; decompressors return their arrays, which the check releases or passes to the next call"};
  return run_check(argc, argv, k);
}
