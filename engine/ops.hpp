// Every compress/decompress pair of the library as a job on generated input: used by the checks that look at
// memory safety, purity, concurrency and size rather than at one codec's bound.
#pragma once
#include "cpgen.hpp"
#include "sz_compress_3d.hpp"
#include "sz_decompress_3d.hpp"
#include "sz_compress_pwr.hpp"
#include "sz_decompress_pwr.hpp"
#include "sz_huffman.hpp"
#include "sz_lossless.hpp"
#include "sz_compression_utils.hpp"
#include "sz_decompression_utils.hpp"
#include <memory>
namespace vp {

typedef std::vector<unsigned char> Bytes;
template <class T> void append(Bytes& b, const T* p, size_t n) { size_t o = b.size(); b.resize(o + n * sizeof(T)); if (n) memcpy(b.data() + o, p, n * sizeof(T)); }

// an input array in memory of exactly its size, with a copy to compare with afterwards; stage() moves it to given
// memory for a while, so that different arrays can be passed at the same address
struct InBase {
  static std::vector<InBase*>*& open() { static thread_local std::vector<InBase*>* l = nullptr; return l; }   // inputs of the job under construction
  InBase() { if (open()) open()->push_back(this); }
  virtual size_t bytes() const = 0;
  virtual void stage(unsigned char*& pos) = 0;
  virtual void unstage() = 0;
};
template <class T> struct In : InBase {
  T* p = nullptr; size_t n = 0; std::vector<T> keep; T* own = nullptr;
  In() {}
  In(const In&) = delete; In& operator=(const In&) = delete;
  void set(const std::vector<T>& v) { free(own); n = v.size(); own = p = (T*)malloc(n ? n * sizeof(T) : 1); if (n) memcpy((void*)p, v.data(), n * sizeof(T)); keep = v; }
  bool same() const { return n == 0 || memcmp(p, keep.data(), n * sizeof(T)) == 0; }
  size_t bytes() const override { return (n * sizeof(T) + 15) / 16 * 16 + 16; }
  void stage(unsigned char*& pos) override { p = (T*)pos; if (n) memcpy((void*)p, keep.data(), n * sizeof(T)); pos += bytes(); }
  void unstage() override { p = own; }
  ~In() { free(own); }
};

struct Job {
  std::string name;              // codec and precision
  size_t values = 0;             // scalar values in the input
  size_t raw = 0;                // bytes of the input
  bool sided = false;            // false: only compresses
  double eb = 0;
  bool eb_settable = false;      // compress() uses eb
  size_t shape[3] = {0, 0, 0};   // of a grid; 0, points, tetrahedra of a mesh
  int codec = -1;                // of critical-point codecs
  int tag = 0;                   // 2 * family + (double precision)
  std::vector<InBase*> inputs;
  virtual ~Job() {}
  virtual unsigned char* compress(size_t& size) = 0;                  // malloc'd stream
  virtual Bytes decompress(const unsigned char* stream) = 0;          // decoded values as bytes
  virtual void will_decompress(size_t) {}                             // a stream of this size, written elsewhere
  virtual bool inputs_same() const = 0;
  virtual Bytes original() const = 0;                                 // the input values in the layout of decompress()
};

struct OutStream { unsigned char* p = nullptr; size_t n = 0; ~OutStream() { free(p); } };

enum { F_ABS2, F_ABS3, F_EB2, F_EB3, F_PWR, F_PWR_EB, F_CP2, F_CP3, F_UNSTR, F_HUFF, F_TREE, F_ZSTD, F_COUNT };

struct JobOpts { size_t cap2 = 3000, cap3 = 2500; int only = -1; bool reuse_out = false, wide = false, mixed = false; size_t like[3] = {0, 0, 0}; int dbl = -1, codec = -1; };   // wide: magnitudes whose products overflow; mixed: with reuse_out, some outputs come as NULL; like: take this shape; dbl, codec: this precision and codec
template <class T> VecOpts vec_opts(const JobOpts& o, double lo, double hi) {
  VecOpts vo; vo.min_mag = lo; vo.max_mag = hi;
  if (o.wide) { vo.min_mag = sizeof(T) == 4 ? 1.2e-38 : 1e-55; vo.max_mag = sizeof(T) == 4 ? 1e36 : 1e280; }
  return vo;
}
inline Shape2 shape2(Case& c, const JobOpts& o, bool vec) { if (o.like[0] && o.like[1] && !o.like[2]) return {o.like[0], o.like[1]}; return vec ? gen_vshape2(c, o.cap2) : gen_shape2(c, o.cap2); }
inline Shape3 shape3(Case& c, const JobOpts& o, bool vec) { if (o.like[0] && o.like[1] && o.like[2]) return {o.like[0], o.like[1], o.like[2]}; return vec ? gen_vshape3(c, o.cap3) : gen_shape3(c, o.cap3); }

struct Abs2Job : Job {
  In<float> a; size_t r1, r2; int bs; bool bi;
  Abs2Job(Case& c, const JobOpts& o) {
    Shape2 s = shape2(c, o, false); r1 = s.r1; r2 = s.r2; shape[0] = r1; shape[1] = r2; bs = c.weighted({5, 5, 1}) == 0 ? 12 : (int)c.range(2, c.chance(4) ? 64 : 16); bi = c.chance(2);
    auto v = gen_field<float>(c, r1, r2, 1); eb = gen_abs_eb(c, v, -8, 2); a.set(v); c.note("block=%d", bs);
    name = "2d"; values = s.n(); raw = 4 * values; eb_settable = true;
  }
  unsigned char* compress(size_t& z) override { return sz_compress_2d<float>(a.p, r1, r2, eb, z, bs, bi); }
  Bytes decompress(const unsigned char* s) override { float* d = sz_decompress_2d<float>(s, r1, r2); Bytes b; if (d) append(b, d, values); free(d); return b; }
  bool inputs_same() const override { return a.same(); }
  Bytes original() const override { Bytes b; append(b, a.keep.data(), a.n); return b; }
};
template <class T> struct Abs3Job : Job {
  In<T> a; size_t r1, r2, r3; int bs; bool bi;
  Abs3Job(Case& c, const JobOpts& o) {
    Shape3 s = shape3(c, o, false); r1 = s.r1; r2 = s.r2; r3 = s.r3; shape[0] = r1; shape[1] = r2; shape[2] = r3; bs = c.weighted({5, 5, 1}) == 0 ? 8 : (int)c.range(2, c.chance(4) ? 40 : 12); bi = c.chance(2);
    auto v = gen_field<T>(c, r1, r2, r3); eb = gen_abs_eb(c, v, -8, 2); a.set(v); c.note("block=%d independent=%d", bs, bi);
    name = bi ? "3d-independent" : "3d-dependent"; values = s.n(); raw = sizeof(T) * values; eb_settable = true;
  }
  unsigned char* compress(size_t& z) override { return sz_compress_3d<T>(a.p, r1, r2, r3, eb, z, bs, bi); }
  Bytes decompress(const unsigned char* s) override { T* d = sz_decompress_3d<T>(s, r1, r2, r3); Bytes b; if (d) append(b, d, values); free(d); return b; }
  bool inputs_same() const override { return a.same(); }
  Bytes original() const override { Bytes b; append(b, a.keep.data(), a.n); return b; }
};
template <class T> struct Eb2Job : Job {
  In<T> a; In<double> e; size_t r1, r2; int bs; bool d3 = false; size_t r3 = 1;
  Eb2Job(Case& c, const JobOpts& o, bool three) : d3(three) {
    if (d3) { Shape3 s = shape3(c, o, false); r1 = s.r1; r2 = s.r2; r3 = s.r3; shape[0] = r1; shape[1] = r2; shape[2] = r3; } else { Shape2 s = shape2(c, o, false); r1 = s.r1; r2 = s.r2; shape[0] = r1; shape[1] = r2; }
    bs = c.weighted({5, 5, 1}) == 0 ? (d3 ? 8 : 12) : (int)c.range(2, c.chance(4) ? 40 : 14);
    auto v = gen_field<T>(c, r1, r2, r3); double base = gen_abs_eb(c, v, -7, 1); a.set(v);
    int k = c.weighted({2, 1, 3, 3}); unsigned one_in = 1 + (unsigned)c.draw(20); Rng r(c.seed()); std::vector<double> eb(v.size());
    for (auto& x : eb) { double lu = base * pow10i(6 * (r.unit() - 0.5)); bool z = r.below(one_in) == 0; x = k == 0 ? base : k == 1 ? 0 : k == 2 ? (z ? 0 : base) : (z ? 0 : lu); }
    e.set(eb); c.note("ebs kind %d 1/%u block=%d", k, one_in, bs);
    name = d3 ? "3d-per-point" : "2d-per-point"; values = v.size(); raw = sizeof(T) * values; sided = d3;
  }
  unsigned char* compress(size_t& z) override { return d3 ? sz_compress_3d_with_eb<T>(a.p, e.p, r1, r2, r3, z, bs, false) : sz_compress_2d_with_eb<T>(a.p, e.p, r1, r2, z, bs, false); }
  Bytes decompress(const unsigned char* s) override { Bytes b; if (d3) return b; T* d = sz_decompress_2d_with_eb<T>(s, e.p, r1, r2); if (d) append(b, d, values); free(d); return b; }
  bool inputs_same() const override { return a.same() && e.same(); }
  Bytes original() const override { Bytes b; append(b, a.keep.data(), a.n); return b; }
};
struct PwrJob : Job {
  In<float> a; In<double> e; size_t r1, r2; int bs; bool each; double* leb = nullptr;
  PwrJob(Case& c, const JobOpts& o, bool per_point) : each(per_point) {
    Shape2 s = shape2(c, o, false); r1 = s.r1; r2 = s.r2; shape[0] = r1; shape[1] = r2; bs = c.weighted({5, 5, 1}) == 0 ? 12 : (int)c.range(2, 16);
    auto v = gen_field<float>(c, r1, r2, 1); a.set(v); values = v.size(); raw = 4 * values;
    eb = c.chance(2) ? 0.1 : pow10i(-4 * c.unit());
    double ml = 0; for (float x : v) if (x != 0) ml = std::max(ml, std::fabs(std::log2(std::fabs((double)x)))); eb = std::min(1.0, std::max(eb, ml * 12 * 1.2e-7));
    std::vector<double> q(each ? values : 0); unsigned one_in = 1 + (unsigned)c.draw(10); int k = (int)c.draw(3); Rng r(c.seed());
    for (auto& x : q) { x = k == 0 ? eb : pow10i(-6 * r.unit()); if (k == 2 && r.below(one_in) == 0) x = 0; }
    e.set(q); c.note("rel eb=%g block=%d", eb, bs);
    name = each ? "pwr-per-point" : "pwr"; eb_settable = !each;
  }
  ~PwrJob() { free(leb); }
  unsigned char* compress(size_t& z) override {
    if (!each) return sz_compress_2d_pwr<float>(a.p, r1, r2, eb, z, bs, false);
    free(leb); leb = nullptr; return sz_compress_2d_pwr_with_eb<float>(a.p, e.p, &leb, r1, r2, z, bs, false);
  }
  Bytes decompress(const unsigned char* s) override { float* d = each ? sz_decompress_2d_pwr_with_eb<float>(s, leb, r1, r2) : sz_decompress_2d_pwr<float>(s, r1, r2); Bytes b; if (d) append(b, d, values); free(d); return b; }
  bool inputs_same() const override { return a.same() && e.same(); }
  Bytes original() const override { Bytes b; append(b, a.keep.data(), a.n); return b; }
};
template <class T> struct Cp2Job : Job {
  int ki; In<T> U, V; size_t r1, r2; bool reuse; unsigned drop = 0; T *ou = nullptr, *ov = nullptr;
  Cp2Job(Case& c, const JobOpts& o) : ki(o.codec >= 0 ? o.codec : (int)c.draw(C2_COUNT)), reuse(o.reuse_out) {
    const Codec2<T>& k = codecs2<T>()[ki]; if (o.mixed && reuse) drop = (unsigned)c.draw(4);
    Shape2 s = shape2(c, o, true); r1 = s.r1; r2 = s.r2; shape[0] = r1; shape[1] = r2; VecOpts vo = vec_opts<T>(o, 1e-12, 1e12);
    auto w = gen_vec<T>(c, 2, r1, r2, 1, vo); eb = k.bound == ABS ? gen_vec_abs_eb(c, w) : gen_rel_eb(c); codec = ki;
    U.set(w[0]); V.set(w[1]); name = std::string("cp2-") + k.name; values = 2 * s.n(); raw = sizeof(T) * values; eb_settable = true;
  }
  ~Cp2Job() { free(ou); free(ov); }
  unsigned char* compress(size_t& z) override { return codecs2<T>()[ki].comp(U.p, V.p, r1, r2, z, false, eb); }
  Bytes decompress(const unsigned char* s) override {
    Bytes b; T *du = nullptr, *dv = nullptr; size_t n = values / 2;
    if (drop & 1) { free(ou); ou = nullptr; }
    if (drop & 2) { free(ov); ov = nullptr; }
    if (reuse) { du = ou; dv = ov; }
    codecs2<T>()[ki].dec(s, r1, r2, du, dv);
    if (du && dv) { append(b, du, n); append(b, dv, n); }
    if (reuse) { ou = du; ov = dv; } else { free(du); free(dv); }
    return b;
  }
  bool inputs_same() const override { return U.same() && V.same(); }
  Bytes original() const override { Bytes b; append(b, U.keep.data(), U.n); append(b, V.keep.data(), V.n); return b; }
};
template <class T> struct Cp3Job : Job {
  int ki; In<T> U, V, W; size_t r1, r2, r3; bool reuse; unsigned drop = 0; T *o3[3] = {nullptr, nullptr, nullptr};
  Cp3Job(Case& c, const JobOpts& o) : ki(o.codec >= 0 ? o.codec : (int)c.draw(C3_COUNT)), reuse(o.reuse_out) {
    const Codec3<T>& k = codecs3<T>()[ki]; if (o.mixed && reuse) drop = (unsigned)c.draw(8);
    Shape3 s = shape3(c, o, true); r1 = s.r1; r2 = s.r2; r3 = s.r3; shape[0] = r1; shape[1] = r2; shape[2] = r3; VecOpts vo = vec_opts<T>(o, 1e-9, 1e9);
    auto w = gen_vec<T>(c, 3, r1, r2, r3, vo); eb = k.bound == ABS ? gen_vec_abs_eb(c, w) : gen_rel_eb(c); codec = ki;
    U.set(w[0]); V.set(w[1]); W.set(w[2]); name = std::string("cp") + k.name; values = 3 * s.n(); raw = sizeof(T) * values; eb_settable = true;
  }
  ~Cp3Job() { for (auto p : o3) free(p); }
  unsigned char* compress(size_t& z) override { return codecs3<T>()[ki].comp(U.p, V.p, W.p, r1, r2, r3, z, false, eb); }
  Bytes decompress(const unsigned char* s) override {
    Bytes b; T* d[3] = {nullptr, nullptr, nullptr}; size_t n = values / 3;
    for (int i = 0; i < 3; i++) if (drop >> i & 1) { free(o3[i]); o3[i] = nullptr; }
    if (reuse) for (int i = 0; i < 3; i++) d[i] = o3[i];
    codecs3<T>()[ki].dec(s, r1, r2, r3, d[0], d[1], d[2]);
    if (d[0] && d[1] && d[2]) for (auto p : d) append(b, p, n);
    for (int i = 0; i < 3; i++) { if (reuse) o3[i] = d[i]; else free(d[i]); }
    return b;
  }
  bool inputs_same() const override { return U.same() && V.same() && W.same(); }
  Bytes original() const override { Bytes b; append(b, U.keep.data(), U.n); append(b, V.keep.data(), V.n); append(b, W.keep.data(), W.n); return b; }
};
template <class T> struct UnstrJob : Job {
  In<T> pts, data; In<int> tets; int n = 1, m = 0; bool reuse; T* od = nullptr;
  UnstrJob(Case& c, const JobOpts& o) : reuse(o.reuse_out) {
    n = 1 + (int)c.draw(c.chance(3) ? o.cap3 / 8 : 14); m = n < 4 || c.chance(12) ? 0 : 1 + (int)c.draw(2 * n);
    if (!o.like[0] && o.like[1]) { n = (int)o.like[1]; m = (int)o.like[2]; }
    shape[1] = n; shape[2] = m; Rng r(c.seed());
    std::vector<int> t;
    for (int e = 0; e < m; e++) { int v[4]; for (int q = 0; q < 4; q++) { bool dup; do { v[q] = (int)r.below(n); dup = false; for (int p = 0; p < q; p++) dup = dup || v[p] == v[q]; } while (dup); } t.insert(t.end(), v, v + 4); }
    VecOpts vo = vec_opts<T>(o, 1e-9, 1e9); auto w = gen_vec<T>(c, 3, 1, 1, n, vo); eb = gen_rel_eb(c);
    std::vector<T> d(3 * n), p(3 * n); for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) { d[3 * i + k] = w[k][i]; p[3 * i + k] = (T)r.unit(); }
    pts.set(p); data.set(d); tets.set(t); c.note("mesh n=%d m=%d", n, m);
    name = "unstructured"; values = 3 * (size_t)n; raw = sizeof(T) * values; eb_settable = true;
  }
  ~UnstrJob() { free(od); }
  unsigned char* compress(size_t& z) override { return sz_compress_cp_preserve_3d_unstructured<T>(n, pts.p, data.p, m, tets.p, z, eb); }
  Bytes decompress(const unsigned char* s) override {
    T* d = reuse ? od : nullptr; sz_decompress_cp_preserve_3d_unstructured<T>(s, n, pts.p, m, tets.p, d); Bytes b; if (d) append(b, d, values);
    if (reuse) od = d; else free(d);
    return b;
  }
  bool inputs_same() const override { return pts.same() && data.same() && tets.same(); }
  Bytes original() const override { Bytes b; append(b, data.keep.data(), data.n); return b; }
};
struct HuffJob : Job {
  In<int> s; int states; bool tree; 
  HuffJob(Case& c, bool with_tree) : tree(with_tree) {
    static const int st[] = {131072, 65536, 1024, 2, 300, 40000}; states = st[c.draw(6)]; size_t n = (tree ? 1 : c.weighted({1, 12})) + c.draw_size(c.chance(25) ? 70000 : 6000);
    int kind = c.weighted({4, 4, 1, 2}); size_t k = 1 + c.draw_size(std::min(states, 9000)); double p = 0.05 + 0.9 * c.unit(); Rng r(c.seed()); std::vector<int> v(n);
    for (size_t i = 0; i < n; i++) { int x = kind == 0 ? (int)r.below(k) : kind == 2 ? (int)(sizeof(int) * 0 + k - 1) : kind == 3 ? (int)(i % states) : 0; if (kind == 1) { int d = 0; while (r.unit() > p && d < states / 2 - 1) d++; x = states / 2 + (r.below(2) ? d : -d); } v[i] = std::max(0, std::min(states - 1, x)); }
    s.set(v); values = n; raw = 4 * n; name = tree ? "huffman-withTree" : "huffman"; c.note("symbols n=%zu states=%d kind %d k=%zu", n, states, kind, k);
  }
  unsigned char* compress(size_t& z) override {
    unsigned char* out = nullptr;
    if (tree) { HuffmanTree* t = createHuffmanTree(states); encode_withTree(t, s.p, values, &out, &z); SZ_ReleaseHuffman(t); }
    else { out = (unsigned char*)malloc(64 + 30 * std::min<size_t>(states, values) + 16 + 8 * values); unsigned char* p = out; Huffman_encode_tree_and_data(states, s.p, values, p); z = p - out; }
    return out;
  }
  Bytes decompress(const unsigned char* q) override {
    Bytes b;
    if (tree) { int* d = (int*)malloc(values * sizeof(int)); HuffmanTree* t = createHuffmanTree(states); decode_withTree(t, q, values, d); SZ_ReleaseHuffman(t); append(b, d, values); free(d); }
    else { const unsigned char* p = q; int* d = Huffman_decode_tree_and_data(states, values, p); if (d) append(b, d, values); free(d); }
    return b;
  }
  bool inputs_same() const override { return s.same(); }
  Bytes original() const override { Bytes b; append(b, s.keep.data(), s.n); return b; }
};
struct ZstdJob : Job {
  In<unsigned char> a; int level; size_t size = 0;
  ZstdJob(Case& c) {
    size_t n = c.draw_size(20000); level = (int)c.range(1, 19); int k = (int)c.draw(3); Rng r(c.seed()); std::vector<unsigned char> v(n);
    for (size_t i = 0; i < n; i++) v[i] = k == 0 ? (unsigned char)r.next() : k == 1 ? 7 : (unsigned char)(i % 11 + (r.below(9) == 0));
    a.set(v); values = raw = n; name = "lossless"; c.note("bytes n=%zu level=%d kind %d", n, level, k);
  }
  void will_decompress(size_t z) override { size = z; }
  unsigned char* compress(size_t& z) override { unsigned char* p = nullptr; z = sz_lossless_compress(ZSTD_COMPRESSOR, level, a.p, values, &p); size = z; return p; }
  Bytes decompress(const unsigned char* s) override { unsigned char* d = nullptr; size_t n = sz_lossless_decompress(ZSTD_COMPRESSOR, (unsigned char*)s, size, &d, values); Bytes b; if (d && n == values) append(b, d, n); free(d); return b; }
  bool inputs_same() const override { return a.same(); }
  Bytes original() const override { Bytes b; append(b, a.keep.data(), a.n); return b; }
};

inline std::unique_ptr<Job> gen_job(Case& c, const JobOpts& o = JobOpts()) {
  int f = o.only >= 0 ? o.only : c.weighted({4, 4, 4, 2, 3, 3, 14, 7, 4, 1, 2, 1});
  bool dbl = o.dbl >= 0 ? o.dbl : c.chance(2); Job* j = nullptr; std::vector<InBase*> ins;
  struct Open { Open(std::vector<InBase*>* l) { InBase::open() = l; } ~Open() { InBase::open() = nullptr; } } opened(&ins);
  switch (f) {
    case F_ABS2: j = new Abs2Job(c, o); break;
    case F_ABS3: if (dbl) j = new Abs3Job<double>(c, o); else j = new Abs3Job<float>(c, o); break;
    case F_EB2: if (dbl) j = new Eb2Job<double>(c, o, false); else j = new Eb2Job<float>(c, o, false); break;
    case F_EB3: if (dbl) j = new Eb2Job<double>(c, o, true); else j = new Eb2Job<float>(c, o, true); break;
    case F_PWR: j = new PwrJob(c, o, false); break;
    case F_PWR_EB: j = new PwrJob(c, o, true); break;
    case F_CP2: if (dbl) j = new Cp2Job<double>(c, o); else j = new Cp2Job<float>(c, o); break;
    case F_CP3: if (dbl) j = new Cp3Job<double>(c, o); else j = new Cp3Job<float>(c, o); break;
    case F_UNSTR: if (dbl) j = new UnstrJob<double>(c, o); else j = new UnstrJob<float>(c, o); break;
    case F_HUFF: j = new HuffJob(c, false); break;
    case F_TREE: j = new HuffJob(c, true); break;
    default: j = new ZstdJob(c); break;
  }
  if (dbl && f != F_ABS2 && f != F_PWR && f != F_PWR_EB && f < F_HUFF) j->name += "/double";
  j->tag = 2 * f + (dbl && f != F_ABS2 && f != F_PWR && f != F_PWR_EB && f < F_HUFF);
  j->inputs = ins;
  c.label("codec:" + j->name); c.note("%s", j->name.c_str());
  return std::unique_ptr<Job>(j);
}
}  // namespace vp
