// Property-based testing engine: seeded choice sequences, crash-isolated workers, integrated shrinking,
// replay files and evidence.  A case is the sequence of choices its generators draw; shrinking edits that
// sequence and runs the same generators again, so every shrunk case is a valid input.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>
#include <initializer_list>

namespace vp {

struct Failure { std::string key, msg; };
struct Discard {};

uint64_t mix64(uint64_t x);

// small deterministic generator for bulk data, always seeded from a recorded choice
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix64(seed + 0x9e3779b97f4a7c15ULL)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }   // [0,1)
  double sym() { return 2 * unit() - 1; }
};

class Case {
 public:
  uint64_t draw(uint64_t n);                                // [0,n); 0 is the simplest choice
  uint64_t draw_size(uint64_t n);                           // [0,n), small values favoured
  // [0,n) like draw_size, but one length in six is a small multiple of a power of two, or one off it
  uint64_t draw_len(uint64_t n) {
    if (n < 8 || !chance(6)) return draw_size(n);
    int top = 0; while ((n >> top) > 1) top++;
    uint64_t v = (1 + draw(3)) << (1 + draw(top)); v += draw(3) - 1; label("length:boundary"); return v < n ? v : n - 1;
  }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
  bool chance(unsigned one_in) { return draw(one_in) == one_in - 1; }   // true with probability 1/one_in; shrinks to false
  double unit() { return draw(1u << 20) / (double)(1u << 20); }
  int weighted(std::initializer_list<int> w);               // index, probability by weight; shrinks to 0
  uint64_t seed() { return draw(0xffffffffULL); }
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));   // text for replay files and samples
  void label(const std::string& l);                         // counter in the evidence
  void nontrivial(bool b = true) { nontriv = nontriv || b; }
  void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
  void check(bool ok, const char* what) { if (!ok) fail("%s", what); }
  void discard() { throw Discard(); }
  bool describing() const { return true; }
  int tier = 0;                                             // 0 quick, 1 thorough
  uint64_t index = 0;
  // internals
  bool replay = false; const uint64_t* rchoices = nullptr; size_t rn = 0;
  uint64_t* out = nullptr; size_t* outn = nullptr; size_t outcap = 0; size_t pos = 0;
  Rng rng; bool nontriv = false; std::string text; uint64_t h = 0xcbf29ce484222325ULL;
  std::vector<std::string> labels; char* shtext = nullptr; size_t shcap = 0;
};

struct Check {
  const char* id;
  const char* rule;                          // what counts as non-trivial
  std::function<void(Case&)> prop;
  uint64_t quick_cases, thorough_cases;
  double quick_cap_s = 150, thorough_cap_s = 780;   // safety caps on wall time
  double cpu_limit_s = 15;                   // CPU seconds for one case before it counts as not terminating
  int min_reproductions = 2, replays = 3;    // a failure is reported when it reproduces this often
  std::vector<std::string> assumptions;
  // cases always run first (hand-picked regressions), by index; optional
  std::function<void(Case&)> fixed = nullptr; uint64_t n_fixed = 0;
  size_t mem_limit_mb = 6000;
  int workers = 8;
  bool fresh_process = false;                // every case in a process of its own, in which the library has not run yet
};

int run_check(int argc, char** argv, const Check& c);

}  // namespace vp
