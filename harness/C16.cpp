// C16: bit casts and floating-point bit operators preserve bits
// @unit name=fb defs=VP_G=1
// @unit name=fb2 defs=VP_G=2
// @unit name=std cfg=stdlib defs=VP_G=1
// @unit name=std2 cfg=stdlib defs=VP_G=2
// @unit name=fb17 std=c++17 march=x86-64 defs=VP_G=2
// @unit name=std17 cfg=stdlib std=gnu++17 march=x86-64 defs=VP_G=3
// @bound every bit pattern of every lane; element types of 1, 2, 4 and 8 bytes; widths as instantiated; scalar, native, deduced and fixed_size ABIs
#include "simdh.h"
#include <vir/simd_bit.h>
#include <vir/simd_float_ops.h>
template <class T, int N> using vec = stdx::simd<T, stdx::simd_abi::deduce_t<T, N>>;
template <class T, int N> using fix = stdx::fixed_size_simd<T, N>;
// the bytes of the lanes in memory order
template <class V> void put(unsigned char* m, const V& v) { for (int i = 0; i < int(V::size()); ++i) { const typename V::value_type t = v[i]; __builtin_memcpy(m + i * sizeof(t), &t, sizeof(t)); } }
template <class From, class To> void cast() {
  using T = typename From::value_type; using U = typename To::value_type;
  constexpr int N = From::size(), M = To::size(); static_assert(N * sizeof(T) == M * sizeof(U)); constexpr int B = N * sizeof(T);
  T a[N]; const From x = vp::symv<From>(a, "x");
  const To r = vir::simd_bit_cast<To>(x); unsigned char p[B], q[B];
  __builtin_memcpy(p, a, B); put(q, r); bool ok = true; for (int i = 0; i < B; ++i) ok &= p[i] == q[i]; vp_assert(ok, "simd_bit_cast");
  const From y = vir::simd_bit_cast<From>(r); put(q, y); ok = true; for (int i = 0; i < B; ++i) ok &= p[i] == q[i]; vp_assert(ok, "casting back");
  put(q, x); ok = true; for (int i = 0; i < B; ++i) ok &= p[i] == q[i]; vp_assert(ok, "argument unchanged");
}
template <class V> void fops() {
  using namespace vir::simd_float_ops; using T = typename V::value_type; constexpr int N = V::size();
  T a[N], b[N]; const V x = vp::symv<V>(a, "x"), y = vp::symv<V>(b, "y");
  const V r1 = x & y, r2 = x | y, r3 = x ^ y; bool o1 = true, o2 = true, o3 = true, o4 = true;
  for (int i = 0; i < N; ++i) { const auto p = vp::bits(a[i]), q = vp::bits(b[i]); o1 &= vp::bits(T(r1[i])) == (p & q); o2 &= vp::bits(T(r2[i])) == (p | q); o3 &= vp::bits(T(r3[i])) == (p ^ q); o4 &= vp::bits(T(x[i])) == p && vp::bits(T(y[i])) == q; }
  vp_assert(o1, "operator&"); vp_assert(o2, "operator|"); vp_assert(o3, "operator^"); vp_assert(o4, "operands unchanged");
}
#define C(T, N, U, M) VP(cast_##T##_##N##_##U##_##M, cast<vec<T, N>, vec<U, M>>)
#define D(T, N, U, M) VP(castf_##T##_##N##_##U##_##M, cast<fix<T, N>, fix<U, M>>)
#define FO(T, N) VP(fops_##T##_##N, fops<vec<T, N>>)
#define FF(T, A) VP(fopsf_##T##_##A, fops<stdx::simd<T, ab::A<T>>>)
#if VP_G == 1
C(f32, 1, i32, 1) C(f32, 4, i32, 4) C(f32, 4, u32, 4) C(f32, 4, f64, 2) C(f64, 2, f32, 4) C(f64, 2, i64, 2) C(i32, 4, i16, 8) C(i16, 8, i8, 16) C(u8, 16, f32, 4) C(u8, 16, u64, 2) C(f32, 8, i32, 8) C(f32, 8, f64, 4) C(f64, 4, u8, 32) C(i64, 4, i16, 16) C(u32, 8, f32, 8) C(i32, 2, f32, 2) C(u64, 1, f64, 1) C(i16, 2, u16, 2) C(f32, 8, u16, 16)
#elif VP_G == 2
FO(f32, 1) FO(f32, 2) FO(f32, 3) FO(f32, 4) FO(f32, 5) FO(f32, 7) FO(f32, 8) FO(f64, 1) FO(f64, 2) FO(f64, 3) FO(f64, 4) FF(f32, n) FF(f64, n) FF(f32, s) FF(f64, s) FF(f32, c) FF(f64, c)
FF(f32, f4) FF(f32, f8) FF(f32, f16) FF(f64, f4) FF(f64, f8) FF(f64, f3) FF(f32, f5) FF(f32, f1) FF(f32, f12) FF(f64, f9) FO(f32, 16) FO(f32, 12) FO(f64, 8) VP_WIDE(FF(f32, f33) D(u8, 64, u32, 16) D(f32, 16, u8, 64))
D(f32, 4, i32, 4) D(f32, 8, f64, 4) D(f32, 16, i32, 16) D(i32, 8, f32, 8) D(f64, 8, f32, 16) D(u8, 16, u32, 4) D(i64, 4, f64, 4) D(f32, 12, i32, 12) D(i16, 8, i64, 2) D(f32, 1, u32, 1) C(f32, 16, i32, 16) C(f64, 8, f32, 16)
#else
C(f32, 4, i32, 4) C(f64, 2, f32, 4) C(u8, 16, u64, 2) FO(f32, 4) FO(f64, 2) FO(f32, 3) FF(f32, n) FF(f64, s) FF(f32, f8) D(f32, 16, i32, 16) D(f32, 4, i32, 4)
#endif
