// shared by the algorithm harnesses C20..C24
#ifndef VP_ALGO_H
#define VP_ALGO_H
#include "simdh.h"
#include <vir/simd_execution.h>
#include <array>
#include <span>
namespace ex = vir::execution;
namespace pol {
  inline constexpr auto d = ex::simd;
  inline constexpr auto a = ex::simd.prefer_aligned();
  inline constexpr auto p = ex::simd.auto_prologue();
  inline constexpr auto m = ex::simd.assume_matching_size();
  inline constexpr auto u2 = ex::simd.unroll_by<2>();
  inline constexpr auto u3 = ex::simd.unroll_by<3>();
  inline constexpr auto u4 = ex::simd.unroll_by<4>();
  inline constexpr auto u5 = ex::simd.unroll_by<5>();
  inline constexpr auto au2 = ex::simd.prefer_aligned().unroll_by<2>();
  inline constexpr auto pu3 = ex::simd.auto_prologue().unroll_by<3>();
  inline constexpr auto mu2 = ex::simd.assume_matching_size().unroll_by<2>();
  template <int N> inline constexpr auto s = ex::simd.prefer_size<N>();
  template <int N> inline constexpr auto sa = ex::simd.prefer_size<N>().prefer_aligned();
  template <int N> inline constexpr auto sp = ex::simd.auto_prologue().template prefer_size<N>();
  template <int N> inline constexpr auto sm = ex::simd.assume_matching_size().template prefer_size<N>();
  template <int N, int U> inline constexpr auto su = ex::simd.prefer_size<N>().template unroll_by<U>();
  template <int N, int U> inline constexpr auto sau = ex::simd.prefer_size<N>().prefer_aligned().template unroll_by<U>();
  template <int N, int U> inline constexpr auto smu = ex::simd.prefer_size<N>().assume_matching_size().template unroll_by<U>();
}
// the element buffer of one call: exact object (any access outside is reported), arbitrary alignment
template <class T> struct Buf {
  T* p; unsigned n;
  Buf(unsigned len, unsigned off, const char* name) : p(static_cast<T*>(vp_alloc(len * sizeof(T), 64, off * sizeof(T), name))), n(len) { vp::sym(p, len, name); }
  T* begin() const { return p; }
  T* end() const { return p + n; }
  T& operator[](unsigned i) const { return p[i]; }
};
// lengths: every multiple for assume_matching_size policies
template <class P> constexpr bool matching_v = false;
template <class... O> constexpr bool matching_v<ex::simd_policy<O...>> = ex::simd_policy<O...>::_assume_matching_size;
template <int W> inline unsigned length(bool matching, unsigned lo, unsigned L) { return matching ? W * vp_fork(0, L / W, "chunks") : vp_fork(lo, L, "length"); }
#ifndef VP_MAXLEN
#define VP_MAXLEN 260
#endif
#endif
