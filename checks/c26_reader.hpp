// Independent reader of the Huffman layout and of 3D streams with per-point bounds; shares no code with the library.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
namespace c26 {
struct Cursor { const unsigned char* p; size_t n, at = 0; bool bad = false;
  template <class T> T get() { T v{}; if (n - at < sizeof(T)) { bad = true; at = n; return v; } memcpy((void*)&v, p + at, sizeof(T)); at += sizeof(T); return v; }
  const unsigned char* skip(size_t k) { if (n - at < k) { bad = true; at = n; return nullptr; } const unsigned char* q = p + at; at += k; return q; } };
// layout: node count (8 bytes), tree size (4), tree = byte order mark, left[], right[] (1, 2 or 4 bytes each), symbol[] (4), leaf flag[] (1), size of the codes (8), codes, most significant bit first
inline std::string read_huffman(Cursor& c, size_t count, std::vector<int>& out) {
  size_t nodes = c.get<size_t>(); uint32_t tree = c.get<uint32_t>(); const unsigned char* t = c.skip(tree);
  out.clear(); if (c.bad) return "tree cut off";
  size_t w = nodes <= 256 ? 1 : nodes <= 65536 ? 2 : 4;
  if (tree != 1 + nodes * (2 * w + 5)) return "tree of " + std::to_string(nodes) + " nodes holds " + std::to_string(tree) + " bytes";
  auto link = [&](size_t base, size_t i) { size_t v = 0; memcpy(&v, t + 1 + base + i * w, w); return v; };
  auto leaf = [&](size_t i) { return t[1 + nodes * (2 * w + 4) + i] != 0; };
  auto sym = [&](size_t i) { uint32_t v; memcpy(&v, t + 1 + 2 * w * nodes + 4 * i, 4); return (int)v; };
  size_t bytes = c.get<size_t>(); const unsigned char* d = c.skip(bytes); if (c.bad) return "codes cut off";
  if (count == 0) return "";
  if (!nodes) return "no tree";
  if (leaf(0)) { out.assign(count, sym(0)); return ""; }
  size_t bit = 0;
  for (size_t i = 0; i < count; i++) {
    size_t n = 0;
    while (!leaf(n)) { if (bit >= 8 * bytes) return "codes end after " + std::to_string(i) + " symbols"; n = link((d[bit / 8] >> (7 - bit % 8) & 1) ? nodes * w : 0, n); bit++; if (n == 0 || n >= nodes) return "broken tree"; }
    out.push_back(sym(n));
  }
  return "";
}
template <class T> std::string read_3d_with_eb(const unsigned char* s, size_t len, const double* eb, size_t r1, size_t r2, size_t r3, std::vector<T>& out) {
  Cursor c{s, len}; int bs = c.get<int>(); c.get<char>(); int radius = c.get<int>();
  struct Mean { bool use; T mean; }; Mean m = c.get<Mean>();
  size_t regs = c.get<size_t>(), un = c.get<size_t>();
  if (c.bad || bs < 1 || radius < 1 || un > r1 * r2 * r3) return "header";
  const unsigned char* u = c.skip(un * sizeof(T));
  size_t nb = ((r1 + bs - 1) / bs) * ((r2 + bs - 1) / bs) * ((r3 + bs - 1) / bs);
  const unsigned char* flags = c.skip((nb + 7) / 8); if (c.bad) return "cut off";
  for (size_t i = 0; i < nb; i++) if (flags[i / 8] >> (7 - i % 8) & 1) return "regression block";
  if (regs) return "regression coefficients";
  std::vector<int> q; std::string e = read_huffman(c, r1 * r2 * r3, q); if (!e.empty()) return e;
  if (c.at != len) return std::to_string(len - c.at) + " bytes left over";
  size_t p2 = r2 + 1, p3 = r3 + 1; std::vector<T> a((r1 + 1) * p2 * p3, 0); out.assign(r1 * r2 * r3, 0); size_t t = 0, used = 0;
  for (size_t i = 0; i < r1; i += bs) for (size_t j = 0; j < r2; j += bs) for (size_t k = 0; k < r3; k += bs)
    for (size_t x = i; x < std::min(r1, i + bs); x++) for (size_t y = j; y < std::min(r2, j + bs); y++) for (size_t z = k; z < std::min(r3, k + bs); z++) {
      T* v = &a[((x + 1) * p2 + y + 1) * p3 + z + 1]; size_t o = (x * r2 + y) * r3 + z; int type = q[t++];
      if (type == 0) { if (used == un) return "too few verbatim values"; memcpy((void*)v, u + sizeof(T) * used++, sizeof(T)); }
      else if (m.use && type == 1) *v = m.mean;
      else { size_t d0 = p2 * p3, d1 = p3; float pred = (float)(v[-1] + *(v - d1) + *(v - d0) - *(v - d1 - 1) - *(v - d0 - 1) - *(v - d0 - d1) + *(v - d0 - d1 - 1)); *v = (T)(pred + 2 * (type - radius) * eb[o]); }
      out[o] = *v;
    }
  if (used != un) return std::to_string(un - used) + " verbatim values left over";
  return "";
}
}  // namespace c26
