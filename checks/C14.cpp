// C14: Huffman coding returns every symbol sequence, and the reader stops where the writer stopped.
#include "engine.hpp"
#include "gen.hpp"
#include "sz_huffman.hpp"
#include "sz_compression_utils.hpp"
#include "sz_decompression_utils.hpp"
#include <set>
#include <map>
#include <queue>
#include <algorithm>
using namespace vp;

struct Seq { size_t states; std::vector<int> s; size_t distinct = 0; };
static Seq gen_seq(Case& c, bool allow_empty) {
  Seq q;
  static const size_t st[] = {131072, 65536, 2048, 512, 1024, 200, 2, 3, 300, 40000};
  q.states = st[c.weighted({6, 3, 3, 3, 2, 1, 1, 1, 1, 1})];
  if (c.chance(12)) q.states = 2 + c.draw(3000);
  int kind = c.weighted({3, 4, 4, 2, 3, 3, 1, allow_empty ? 1 : 0});
  static const char* names[] = {"explicit", "uniform", "peaked", "single", "fibonacci", "node-class", "all-distinct", "empty"};
  c.label(std::string("seq:") + names[kind]);
  Rng r(c.seed());
  auto pick_symbols = [&](size_t k) {      // k distinct symbols in random order
    k = std::max<size_t>(1, std::min(k, q.states));
    std::vector<int> v;
    if (k * 3 > q.states) { v.resize(q.states); for (size_t i = 0; i < q.states; i++) v[i] = (int)i; for (size_t i = 0; i < k; i++) std::swap(v[i], v[i + r.below(q.states - i)]); v.resize(k); }
    else { std::set<int> s; bool centred = r.below(2); while (s.size() < k) s.insert(centred && k < q.states / 8 ? (int)(q.states / 4 + r.below(k * 2)) : (int)r.below(q.states)); v.assign(s.begin(), s.end()); for (size_t i = k; i > 1; i--) std::swap(v[i - 1], v[r.below(i)]); }
    return v;
  };
  auto shuffle = [&](std::vector<int>& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]); };
  if (kind == 0) { size_t n = 1 + c.draw(24); int span = (int)std::min<size_t>(q.states, 1 + c.draw(12)); for (size_t i = 0; i < n; i++) q.s.push_back((int)c.draw(span)); if (c.chance(3)) for (auto& x : q.s) x = (int)q.states - 1 - x; }
  else if (kind == 1) { auto y = pick_symbols(1 + c.draw_size(c.chance(8) ? 60000 : 600)); size_t n = 1 + c.draw_len(c.tier ? 60000 : 20000); for (size_t i = 0; i < n; i++) q.s.push_back(y[r.below(y.size())]); }
  else if (kind == 2) {   // like quantisation indices: geometric around the centre
    size_t n = 1 + c.draw_len(c.tier ? 60000 : 20000); double p = 0.02 + 0.96 * c.unit(); int mid = (int)(q.states / 4);
    for (size_t i = 0; i < n; i++) { int d = 0; while (r.unit() > p && d < 40000) d++; int x = mid + (r.below(2) ? d : -d); if (x < 0 || x >= (int)q.states) x = 0; q.s.push_back(x); }
  }
  else if (kind == 3) { size_t n = 1 + c.draw_len(20000); q.s.assign(n, (int)r.below(q.states)); }
  else if (kind == 4) {   // Fibonacci frequencies: the longest codes
    int k = 2 + (int)c.draw(c.tier ? 28 : 22); if (c.chance(c.tier ? 1500 : 700)) k = 33 + (int)c.draw(3);   // codes of more than 32 bits
    bool mix = c.chance(2); if (k > 30 && q.states < 40) q.states = 512;
    auto y = pick_symbols(k); size_t a = 1, b = 1;
    if (c.chance(2)) std::sort(y.begin(), y.end());
    if (c.chance(4)) std::sort(y.rbegin(), y.rend());
    for (size_t i = 0; i < y.size(); i++) { for (size_t t = 0; t < a; t++) q.s.push_back(y[i]); size_t nx = a + b; a = b; b = nx; }
    if (mix) shuffle(q.s);
  }
  else if (kind == 5) {   // around the limits of the tree representations: 256 and 65536 nodes
    static const int cnt[] = {127, 128, 129, 130, 126, 255, 256, 257, 32767, 32768, 32769, 32770, 65536, 70000};
    auto y = pick_symbols(cnt[c.draw(c.chance(4) ? 14 : 8)]); q.s = y;
    size_t extra = c.draw(3) * 500; for (size_t i = 0; i < extra; i++) q.s.push_back(y[r.below(y.size())]);
    shuffle(q.s);
  }
  else if (kind == 6) { q.s = pick_symbols(1 + c.draw_size(3000)); }
  { std::vector<char> d(q.states); for (int x : q.s) if (!d[x]) { d[x] = 1; q.distinct++; } }
  c.note("%s states=%zu length=%zu distinct=%zu", names[kind], q.states, q.s.size(), q.distinct);
  if (q.s.size() <= 24) { std::string t; for (int x : q.s) t += std::to_string(x) + ","; c.note("[%s]", t.c_str()); }
  c.label(q.distinct == 0 ? "distinct:0" : q.distinct == 1 ? "distinct:1" : q.distinct <= 128 ? "distinct:<=128" : q.distinct <= 32768 ? "distinct:<=32768" : "distinct:>32768");
  return q;
}
static void compare(Case& c, const Seq& q, const int* d, const char* what) {
  for (size_t i = 0; i < q.s.size(); i++) if (d[i] != q.s[i]) c.fail("%s: symbol %zu of %zu (%zu distinct of %zu): %d came back as %d", what, i, q.s.size(), q.distinct, q.states, q.s[i], d[i]);
}
// length in bits of an optimal prefix code for the sequence: the sum of the merged weights
static size_t optimal_bits(const Seq& q) {
  std::map<int, size_t> f; if (q.s.size() > 5000) { std::vector<size_t> v(q.states); for (int x : q.s) v[x]++; for (size_t i = 0; i < v.size(); i++) if (v[i]) f[(int)i] = v[i]; } else for (int x : q.s) f[x]++;
  std::priority_queue<size_t, std::vector<size_t>, std::greater<size_t>> h; for (auto& x : f) h.push(x.second);
  size_t bits = 0;
  while (h.size() > 1) { size_t a = h.top(); h.pop(); a += h.top(); h.pop(); bits += a; h.push(a); }
  return bits;
}
// the coded sequence, its tree and its lengths
static size_t size_limit(const Seq& q) {
  size_t nodes = q.distinct ? 2 * q.distinct - 1 : 0, w = nodes <= 256 ? 1 : nodes <= 65536 ? 2 : 4;
  return optimal_bits(q) / 8 + 1 + nodes * (2 * w + 5) + 64;
}
static void prop(Case& c) {
  bool nt = false;
  if (c.chance(5)) {      // the classic SZ interface
    Seq q = gen_seq(c, false);
    nt = q.distinct > 1;
    c.label("api:withTree");
    HuffmanTree* t = createHuffmanTree((int)q.states);
    unsigned char* out = nullptr; size_t size = 0;
    encode_withTree(t, q.s.data(), q.s.size(), &out, &size);
    SZ_ReleaseHuffman(t);
    if (!out || !size) c.fail("encode_withTree: no stream");
    if (size > size_limit(q)) c.fail("encode_withTree: %zu symbols (%zu distinct) take %zu bytes, an optimal code at most %zu", q.s.size(), q.distinct, size, size_limit(q));
    unsigned char* e = exact_copy(out, size); free(out);
    HuffmanTree* u = createHuffmanTree((int)q.states);
    std::vector<int> d(q.s.size(), -1);
    decode_withTree(u, e, q.s.size(), d.data());
    SZ_ReleaseHuffman(u); free(e);
    compare(c, q, d.data(), "withTree");
  } else {
    int n = c.weighted({0, 6, 2, 1});
    std::vector<Seq> v; size_t cap = 4096;
    for (int i = 0; i < n; i++) { v.push_back(gen_seq(c, true)); cap += 400 + 30 * std::min(v[i].states, v[i].s.size()) + 8 * v[i].s.size(); }
    std::vector<unsigned char> buf(cap);
    Rng g(c.seed()); for (auto& b : buf) b = (unsigned char)g.next();
    unsigned char* p = buf.data(); std::vector<size_t> ends;
    for (int i = 0; i < n; i++) { Huffman_encode_tree_and_data(v[i].states, v[i].s.data(), v[i].s.size(), p); size_t from = i ? ends.back() + 8 : 0; ends.push_back(p - buf.data());
      if (ends.back() - from > size_limit(v[i])) c.fail("sequence %d: %zu symbols (%zu distinct) take %zu bytes, an optimal code at most %zu", i, v[i].s.size(), v[i].distinct, ends.back() - from, size_limit(v[i]));
       uint64_t mark = 0x5a5aa5a5c3c33c3cULL + i; write_variable_to_dst(p, mark); }
    size_t total = p - buf.data();
    if (total > cap) c.fail("the stream of %zu bytes exceeds any plausible size", total);
    unsigned char* e = exact_copy(buf.data(), total); const unsigned char* rp = e;
    for (int i = 0; i < n; i++) {
      int* d = Huffman_decode_tree_and_data(v[i].states, v[i].s.size(), rp);
      if (!d) c.fail("no symbols");
      compare(c, v[i], d, "sequence");
      free(d);
      if ((size_t)(rp - e) != ends[i]) c.fail("sequence %d: the reader stopped at byte %zu, the writer at %zu", i, (size_t)(rp - e), ends[i]);
      uint64_t mark; read_variable_from_src(rp, mark);
      if (mark != 0x5a5aa5a5c3c33c3cULL + i) c.fail("sequence %d: what follows it was overwritten", i);
      nt = nt || v[i].distinct > 1;
    }
    free(e);
    c.label("api:stream"); if (n > 1) c.label("several sequences");
  }
  c.nontrivial(nt);
}
int main(int argc, char** argv) {
  Check k{"C14", "random symbol sequences (1-3 in one stream, or one through encode_withTree), alphabet size, frequency shape; non-trivial when a sequence has at least two distinct symbols", prop, 60000, 1000000};
  k.assumptions = {"code lengths up to 36 bits are generated (10^7 symbols); beyond 64 bits an optimal code needs 10^13 symbols", "symbols are below the declared alphabet size"};
  return run_check(argc, argv, k);
}
