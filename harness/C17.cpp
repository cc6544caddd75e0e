// C17: bitset conversions map bit i to lane i
// @unit name=fb
// @unit name=fb17 std=c++17
// @unit name=std cfg=stdlib
// @unit name=std17 cfg=stdlib std=gnu++17 march=x86-64
// @bound every mask and bit pattern; masks of 1..32 lanes and (fallback) 33, 40, 64, 65 lanes for 1-, 2-, 4- and 8-byte elements, all ABIs
#include "simdh.h"
#include <vir/simd_bitset.h>
template <class T, int N> using vec = stdx::simd<T, stdx::simd_abi::deduce_t<T, N>>;
template <class M> void conv() {
  constexpr int N = M::size(); bool b[N]; const M k = vp::symm<M>(b, "k");
  const std::bitset<N> s = vir::to_bitset(k); bool ok = true; for (int i = 0; i < N; ++i) ok &= s[i] == b[i]; vp_assert(ok, "to_bitset");
  ok = true; for (int i = 0; i < N; ++i) ok &= bool(k[i]) == b[i]; vp_assert(ok, "argument unchanged");
  std::bitset<N> t; for (int i = 0; i < N; ++i) t[i] = b[i];
  vp_assert(s == t, "to_bitset has no other bits");
  const M m = vir::to_simd_mask<M>(t); ok = true; for (int i = 0; i < N; ++i) ok &= bool(m[i]) == b[i]; vp_assert(ok, "to_simd_mask<M>");
  using T = typename M::simd_type::value_type; using A = typename M::abi_type;
  const M m2 = vir::to_simd_mask<T, A>(t); ok = true; for (int i = 0; i < N; ++i) ok &= bool(m2[i]) == b[i]; vp_assert(ok, "to_simd_mask<T, Abi>");
  const auto m3 = vir::to_simd_mask<T>(t); static_assert(decltype(m3)::size() == N); ok = true; for (int i = 0; i < N; ++i) ok &= bool(m3[i]) == b[i]; vp_assert(ok, "to_simd_mask<T>");
  const auto m4 = vir::to_simd_mask<T, N>(t); static_assert(decltype(m4)::size() == N); ok = true; for (int i = 0; i < N; ++i) ok &= bool(m4[i]) == b[i]; vp_assert(ok, "to_simd_mask<T, N>");
  vp_assert(vir::to_bitset(vir::to_simd_mask<M>(t)) == t, "to_bitset(to_simd_mask)"); vp_assert(all_of(vir::to_simd_mask<M>(vir::to_bitset(k)) == k), "to_simd_mask(to_bitset)");
}
#define B(T, N) VP(conv_##T##_##N, conv<typename vec<T, N>::mask_type>)
#define F(T, A) VP(convf_##T##_##A, conv<stdx::simd_mask<T, ab::A<T>>>)
#define BN(T) B(T, 1) B(T, 2) B(T, 3) B(T, 4) B(T, 5) B(T, 6) B(T, 7) B(T, 8) B(T, 9) B(T, 13) B(T, 16) B(T, 17) B(T, 31) B(T, 32) F(T, n) F(T, s) F(T, c) F(T, f1) F(T, f2) F(T, f4) F(T, f7) F(T, f8) F(T, f16) F(T, f31) F(T, f32)
VP_WIDE(F(i8, f33) F(u8, f64) F(i16, f65) F(f32, f33) F(f64, f64) F(i32, f40) F(f32, f130) F(u8, f300))
BN(f32) BN(f64) BN(i8) BN(u16) BN(i32) BN(u64)
