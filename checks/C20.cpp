// C20: no entry point touches memory outside its buffers; the stream is exactly what the reported size says.
// Built with AddressSanitizer; inputs and streams live in heap blocks of exactly their size.
#include "engine.hpp"
#include "ops.hpp"
using namespace vp;

static void prop(Case& c) {
  JobOpts o; if (c.tier) { o.cap2 = 12000; o.cap3 = 10000; }
  if (c.chance(5)) { o.wide = true; c.label("range:wide"); }
  auto j = gen_job(c, o);
  OutStream s; s.p = j->compress(s.n);
  if (!s.p || (!s.n && j->raw)) c.fail("%s: no stream", j->name.c_str());
  if (!j->inputs_same()) c.fail("%s: the compressor wrote into its input", j->name.c_str());
  unsigned char* exact = exact_copy(s.p, s.n);
  c.nontrivial(j->values >= 2);
  if (j->sided) { free(exact); return; }
  Bytes a = j->decompress(exact);
  bool intact = memcmp(exact, s.p, s.n) == 0; free(exact);
  if (!intact) c.fail("%s: the decompressor wrote into the stream", j->name.c_str());
  if (j->raw && a.size() != j->raw) c.fail("%s: %zu bytes decompressed, %zu expected", j->name.c_str(), a.size(), j->raw);
  Bytes b = j->decompress(s.p);
  if (a != b) c.fail("%s: a copy of exactly the reported size decompresses to something else than the original buffer", j->name.c_str());
}
int main(int argc, char** argv) {
  Check k{"C20", "random entry point (all compressors and decompressors, Huffman coder, lossless back end), input, shape and bound, with inputs and streams in heap blocks of exactly their size under AddressSanitizer; non-trivial when at least two values", prop, 40000, 600000};
  k.cpu_limit_s = 60;
  k.assumptions = {"AddressSanitizer (g++) reports heap, stack and global accesses outside live objects; reads of uninitialised memory inside a buffer are looked for by C21 with filled allocations"};
  return run_check(argc, argv, k);
}
