// The vector-field codecs of the library, as data.
#pragma once
#include "gen.hpp"
#include "sz_compress_cp_preserve_2d.hpp"
#include "sz_decompress_cp_preserve_2d.hpp"
#include "sz_compress_cp_preserve_3d.hpp"
#include "sz_decompress_cp_preserve_3d.hpp"
namespace vp {

enum Bound { ABS, REL, LOG };   // absolute; relative (linear domain); relative (log domain, single-precision logs)

template <class T> struct Codec2 {
  const char* name;
  unsigned char* (*comp)(const T*, const T*, size_t, size_t, size_t&, bool, double);
  void (*dec)(const unsigned char*, size_t, size_t, T*&, T*&);
  Bound bound;
};
template <class T> const std::vector<Codec2<T>>& codecs2() {
  static const std::vector<Codec2<T>> v = {
    {"offline", sz_compress_cp_preserve_2d_offline<T>, sz_decompress_cp_preserve_2d_offline<T>, REL},
    {"offline_log", sz_compress_cp_preserve_2d_offline_log<T>, sz_decompress_cp_preserve_2d_offline_log<T>, LOG},
    {"online", sz_compress_cp_preserve_2d_online<T>, sz_decompress_cp_preserve_2d_online<T>, REL},
    {"online_log", sz_compress_cp_preserve_2d_online_log<T>, sz_decompress_cp_preserve_2d_online_log<T>, LOG},
    {"bilinear_online_log", sz_compress_cp_preserve_2d_bilinear_online_log<T>, sz_decompress_cp_preserve_2d_online_log<T>, LOG},
    {"online_abs", sz_compress_cp_preserve_2d_online_abs<T>, sz_decompress_cp_preserve_2d_online<T>, ABS},
    {"online_abs_relax_FN", sz_compress_cp_preserve_2d_online_abs_relax_FN<T>, sz_decompress_cp_preserve_2d_online<T>, ABS},
    {"sz3_online_abs", sz3_compress_cp_preserve_2d_online_abs<T>, sz3_decompress_cp_preserve_2d_online<T>, ABS},
  };
  return v;
}
enum { C2_OFFLINE, C2_OFFLINE_LOG, C2_ONLINE, C2_ONLINE_LOG, C2_BILINEAR, C2_ABS, C2_RELAX, C2_SZ3, C2_COUNT };

// uniform signature for the regular 3D variants
template <class T> unsigned char* comp3_abs(const T* U, const T* V, const T* W, size_t r1, size_t r2, size_t r3, size_t& s, bool, double eb) {
  return sz_compress_cp_preserve_3d_online_abs<T>(U, V, W, r1, r2, r3, s, eb);
}
template <class T> struct Codec3 {
  const char* name;
  unsigned char* (*comp)(const T*, const T*, const T*, size_t, size_t, size_t, size_t&, bool, double);
  void (*dec)(const unsigned char*, size_t, size_t, size_t, T*&, T*&, T*&);
  Bound bound;
};
template <class T> const std::vector<Codec3<T>>& codecs3() {
  static const std::vector<Codec3<T>> v = {
    {"3d_offline_log", sz_compress_cp_preserve_3d_offline_log<T>, sz_decompress_cp_preserve_3d_online_log<T>, LOG},
    {"3d_online_log", sz_compress_cp_preserve_3d_online_log<T>, sz_decompress_cp_preserve_3d_online_log<T>, LOG},
    {"3d_online_abs", comp3_abs<T>, sz_decompress_cp_preserve_3d_online_abs<T>, ABS},
  };
  return v;
}
enum { C3_OFFLINE_LOG, C3_ONLINE_LOG, C3_ABS, C3_COUNT };

// compress, copy the stream to a buffer of exactly the reported size, decompress
template <class T> struct Result2 { std::vector<T> U, V; size_t size = 0; };
template <class T> Result2<T> roundtrip2(Case& c, const Codec2<T>& k, const std::vector<T>& U, const std::vector<T>& V, size_t r1, size_t r2, double eb, bool transpose = false) {
  Result2<T> r;
  unsigned char* p = k.comp(U.data(), V.data(), r1, r2, r.size, transpose, eb);
  if (!p || !r.size) c.fail("%s: no stream", k.name);
  unsigned char* q = exact_copy(p, r.size); free(p);
  T *du = nullptr, *dv = nullptr;
  k.dec(q, r1, r2, du, dv);
  free(q);
  if (!du || !dv) c.fail("%s: no arrays", k.name);
  r.U.assign(du, du + r1 * r2); r.V.assign(dv, dv + r1 * r2);
  free(du); free(dv);
  return r;
}
template <class T> struct Result3 { std::vector<T> U, V, W; size_t size = 0; };
template <class T> Result3<T> roundtrip3(Case& c, const Codec3<T>& k, const std::vector<T>& U, const std::vector<T>& V, const std::vector<T>& W, size_t r1, size_t r2, size_t r3, double eb, bool transpose = false) {
  Result3<T> r; size_t n = r1 * r2 * r3;
  unsigned char* p = k.comp(U.data(), V.data(), W.data(), r1, r2, r3, r.size, transpose, eb);
  if (!p || !r.size) c.fail("%s: no stream", k.name);
  unsigned char* q = exact_copy(p, r.size); free(p);
  T *du = nullptr, *dv = nullptr, *dw = nullptr;
  k.dec(q, r1, r2, r3, du, dv, dw);
  free(q);
  if (!du || !dv || !dw) c.fail("%s: no arrays", k.name);
  r.U.assign(du, du + n); r.V.assign(dv, dv + n); r.W.assign(dw, dw + n);
  free(du); free(dv); free(dw);
  return r;
}

}  // namespace vp
