// C15: the lossless back end returns every byte string.
#include "engine.hpp"
#include "gen.hpp"
#include "sz_lossless.hpp"
using namespace vp;

static std::vector<unsigned char> gen_bytes(Case& c) {
  size_t n = c.weighted({4, 4, 3, 1}); 
  size_t len = n == 0 ? c.draw(300) : n == 1 ? c.draw_len(70000) : n == 2 ? c.draw_len(400000) : c.draw_len(c.tier ? 6000000 : 1500000);
  if (c.chance(6)) { static const size_t edge[] = {99, 100, 101, 127, 128, 1023, 32768, 65535, 65536, 65537, 131072, 131073, 262144}; len = edge[c.draw(13)]; }
  if (c.chance(600)) { len = 2000000 + c.draw(8000000); c.label("len:>=2M"); }
  std::vector<unsigned char> b(len); Rng r(c.seed());
  int kind = c.weighted({3, 2, 2, 2, 2, 2});
  static const char* names[] = {"noise", "constant", "runs", "floats", "small-alphabet", "repeats"};
  switch (kind) {
    case 0: for (auto& x : b) x = (unsigned char)r.next(); break;
    case 1: { unsigned char v = (unsigned char)r.next(); for (auto& x : b) x = v; break; }
    case 2: { size_t i = 0; while (i < len) { size_t k = 1 + r.below(600); unsigned char v = (unsigned char)r.next(); while (k-- && i < len) b[i++] = v; } break; }
    case 3: { double ph = r.unit(); for (size_t i = 0; i + 4 <= len; i += 4) { float f = (float)std::sin(ph + i * 0.001); memcpy(&b[i], &f, 4); } break; }
    case 4: { unsigned k = 2 + r.below(20); for (auto& x : b) x = (unsigned char)r.below(k); break; }
    case 5: { size_t k = 1 + r.below(5000); std::vector<unsigned char> p(k); for (auto& x : p) x = (unsigned char)r.next(); for (size_t i = 0; i < len; i++) b[i] = p[i % k] ^ (r.below(997) == 0); break; }
  }
  c.label(std::string("bytes:") + names[kind]); c.label(len == 0 ? "len:0" : len < 100 ? "len:<100" : len <= 65536 ? "len:<=64K" : len < 1000000 ? "len:<1M" : "len:>=1M");
  c.note("%s length=%zu", names[kind], len);
  return b;
}
static void prop(Case& c) {
  auto b = gen_bytes(c);
  int level = c.chance(2) ? 3 : 1 + (int)c.draw(b.size() > 500000 ? 9 : 19);
  c.note("level=%d", level); c.label("level:" + std::to_string(level));
  unsigned char* in = exact_copy(b.data(), b.size());
  unsigned char* z = nullptr;
  unsigned long zn = sz_lossless_compress(ZSTD_COMPRESSOR, level, in, b.size(), &z);
  if (!z) c.fail("no output");
  if (zn == 0 || zn > b.size() + b.size() / 8 + 600) c.fail("compressing %zu bytes reported %lu bytes", b.size(), zn);
  if (memcmp(in, b.data(), b.size())) c.fail("the input was modified");
  free(in);
  unsigned char* e = exact_copy(z, zn); free(z);
  if (is_lossless_compressed_data(e, zn) != ZSTD_COMPRESSOR) c.fail("the output of the back end is not recognised as compressed data");
  unsigned char* o = nullptr;
  unsigned long on = sz_lossless_decompress(ZSTD_COMPRESSOR, e, zn, &o, b.size());
  if (!o && b.size()) c.fail("no decompressed output");
  if (on != b.size()) c.fail("decompressed length %lu, original %zu", on, b.size());
  for (size_t i = 0; i < b.size(); i++) if (o[i] != b[i]) c.fail("byte %zu of %zu: %u came back as %u", i, b.size(), b[i], o[i]);
  free(o);
  if (b.size() <= 65536) {
    unsigned char* q = nullptr;
    unsigned long qn = sz_lossless_decompress65536bytes(ZSTD_COMPRESSOR, e, zn, &q);
    if (!q || qn != 65536) c.fail("bounded decompression returned %lu bytes", qn);
    for (size_t i = 0; i < b.size(); i++) if (q[i] != b[i]) c.fail("bounded decompression: byte %zu of %zu: %u came back as %u", i, b.size(), b[i], q[i]);
    free(q);
  }
  free(e);
  // data without the magic number of a compressed frame is not mistaken for one
  uint32_t magic = 0; if (b.size() >= 4) { memcpy(&magic, b.data(), 4); if (magic != 0xFD2FB528u && (magic & 0xFFFFFFF0u) != 0x184D2A50u) { unsigned char* t = exact_copy(b.data(), b.size()); if (is_lossless_compressed_data(t, b.size()) == ZSTD_COMPRESSOR) c.fail("plain data is recognised as compressed"); free(t); } }
  c.nontrivial(b.size() >= 4);
}
int main(int argc, char** argv) {
  Check k{"C15", "random byte strings (noise, constant, runs, floats, small alphabets, repeats; 0 to millions of bytes) and levels 1-19; non-trivial when at least 4 bytes", prop, 60000, 800000};
  k.assumptions = {"levels above 9 only up to 500000 bytes"};
  return run_check(argc, argv, k);
}
