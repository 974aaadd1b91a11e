// C21: compressing and decompressing are pure functions of their arguments.
// A history of calls over several jobs runs with allocations and stack filled with changing patterns; every result
// must equal the one of the job's first run, whatever ran in between, and inputs and streams must stay untouched.
#include "engine.hpp"
#include "ops.hpp"
#include <malloc.h>
using namespace vp;

static void __attribute__((noinline)) fill_stack(int v, int depth) {
  volatile unsigned char b[4096]; for (size_t i = 0; i < sizeof b; i++) b[i] = (unsigned char)v;
  if (depth) fill_stack(v, depth - 1);
  b[0] = b[1];
}
// memory in which calls of different jobs find their inputs, and their streams, at the same addresses
struct Arena {
  unsigned char *in = nullptr, *stream = nullptr; size_t nin = 0, nstream = 0; Job* j = nullptr;
  void stage(Job& job) {
    unsigned char* pos = in; j = &job; for (auto i : job.inputs) i->stage(pos);
  }
  void unstage() { if (j) { for (auto i : j->inputs) i->unstage(); memset(in, 0x3c, nin); } j = nullptr; }
  ~Arena() { if (j) for (auto i : j->inputs) i->unstage(); free(in); free(stream); }
};
struct Ref { size_t size = 0; Bytes decoded; Bytes stream; bool have = false; };
static void prop(Case& c) {
  size_t n = 2 + c.draw(3); std::vector<std::unique_ptr<Job>> jobs; std::vector<Ref> ref(n);
  JobOpts o; o.cap2 = c.tier ? 3000 : 900; o.cap3 = c.tier ? 2500 : 800; if (c.chance(6)) { o.wide = true; c.label("range:wide"); }
  bool longer = c.chance(200); if (longer) { o.cap2 = o.cap3 = 40; c.label("history:long"); }
  bool siblings = c.chance(4); if (siblings) c.label("jobs:siblings");   // the same call on other data of the same shape, mostly with the same bound
  for (size_t i = 0; i < n; i++) {
    o.reuse_out = c.chance(2); o.only = i && c.chance(4) ? (int)c.draw(F_COUNT) : -1; o.like[0] = o.like[1] = o.like[2] = 0;
    if (i && siblings) { const Job& b = *jobs[0]; memcpy(o.like, b.shape, sizeof o.like); o.only = b.tag / 2; o.dbl = b.tag & 1; o.codec = b.codec; }
    else if (i && c.chance(3)) { // the same kind of call on other data, or another call, of the same shape
      const Job& b = *jobs[c.draw(i)]; memcpy(o.like, b.shape, sizeof o.like); if (c.chance(2)) o.only = b.tag / 2; if (b.shape[0] || b.shape[1]) c.label("jobs:same shape");
    }
    jobs.push_back(gen_job(c, o)); Job& k = *jobs.back();
    for (size_t q = 0; q < i; q++) if (jobs[q]->tag == k.tag && k.eb_settable && !memcmp(jobs[q]->shape, k.shape, sizeof k.shape) && (siblings ? c.weighted({1, 4}) : c.chance(2))) { k.eb = jobs[q]->eb; c.note("eb=%g", k.eb); c.label("jobs:same shape and bound"); break; }
  }
  Arena ar; for (auto& j : jobs) { size_t need = 16; for (auto i : j->inputs) need += i->bytes(); ar.nin = std::max(ar.nin, need); }
  ar.in = (unsigned char*)malloc(ar.nin);
  size_t steps = longer ? 60 + c.draw(300) : n + 2 + c.draw(8); size_t repeats = 0;
  for (size_t st = 0; st < steps; st++) {
    size_t i = st < n ? st : c.draw(n); Job& j = *jobs[i]; Ref& r = ref[i];
    static const int pat[] = {0, 0x55, 0xff, 0x7f, 0x01, 0x80, 0xc0, 0x3f};
    int v = pat[c.draw(8)]; mallopt(M_PERTURB, v); fill_stack(v, 40);
    int what = r.have ? c.weighted({3, 3, 1}) : 0;     // compress+decompress, decompress the kept stream again, overwrite unrelated memory
    c.note("%c%zu/%02x", "CDX"[what], i, v);
    if (what == 2) { std::vector<void*> junk; Rng g(c.seed()); for (int k = 0; k < 40; k++) { size_t m = 8 + g.below(40000); void* p = malloc(m); memset(p, v, m); junk.push_back(p); } for (auto p : junk) free(p); continue; }
    bool staged = siblings ? c.weighted({1, 3}) : c.chance(2); if (staged) { ar.stage(j); c.note("@"); }
    if (what == 0) {
      OutStream s; s.p = j.compress(s.n);
      if (!s.p) c.fail("%s: no stream", j.name.c_str());
      if (!j.inputs_same()) c.fail("%s: the compressor changed its input", j.name.c_str());
      if (r.have && s.n != r.size) c.fail("%s: compressing the same input again (step %zu) gives %zu bytes instead of %zu", j.name.c_str(), st, s.n, r.size);
      Bytes st_copy(s.p, s.p + s.n); Bytes d;
      if (!j.sided) {
        fill_stack(v ^ 0xff, 40); d = j.decompress(s.p);
        if (memcmp(s.p, st_copy.data(), s.n)) c.fail("%s: the decompressor changed the stream", j.name.c_str());
        if (!j.inputs_same()) c.fail("%s: the decompressor changed its input", j.name.c_str());
        if (r.have && d != r.decoded) c.fail("%s: compressing and decompressing the same input again (step %zu) gives other values", j.name.c_str(), st);
      }
      if (r.have) repeats++;
      if (!r.have || c.chance(2)) { r.size = s.n; r.decoded = d; r.stream = st_copy; }
      r.have = true;
    } else {
      if (j.sided) { ar.unstage(); continue; }
      unsigned char* q;
      if (staged) {      // inside other memory: at any address, with anything after it
        if (ar.nstream < r.stream.size() + 64) { free(ar.stream); ar.stream = (unsigned char*)malloc(ar.nstream = r.stream.size() + 4096); }
        size_t at = c.chance(2) ? c.draw(16) : 0; if (c.chance(4)) memset(ar.stream, v, ar.nstream);
        q = ar.stream + at; memcpy(q, r.stream.data(), r.stream.size()); if (at) c.note("+%zu", at);
      }
      else q = exact_copy(r.stream.data(), r.stream.size());
      Bytes d = j.decompress(q); bool same = memcmp(q, r.stream.data(), r.stream.size()) == 0; if (!staged) free(q);
      if (!same) c.fail("%s: the decompressor changed the stream", j.name.c_str());
      if (d != r.decoded) c.fail("%s: decompressing the same stream again (step %zu) gives other values", j.name.c_str(), st);
      repeats++;
    }
    ar.unstage();
  }
  mallopt(M_PERTURB, 0);
  c.nontrivial(repeats > 0);
}
int main(int argc, char** argv) {
  Check k{"C21", "random history of 4-15 (sometimes 60-360) compress, decompress and memory-churn steps over 2-4 jobs of random entry points, with allocations and stack pre-filled with changing patterns inputs and streams of different calls at the same addresses or not, and outputs fresh or reused; non-trivial when at least one call is repeated", prop, 5000, 80000};
  k.cpu_limit_s = 60;
  k.assumptions = {"compressed sizes and decoded values are compared, not stream bytes: structure padding in a stream is not a result"};
  return run_check(argc, argv, k);
}
