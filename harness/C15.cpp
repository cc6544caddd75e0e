// C15: simd_resize and simd_size_cast keep lanes and zero-fill
// @unit name=fb defs=VP_G=1
// @unit name=fbm defs=VP_G=2
// @unit name=std cfg=stdlib defs=VP_G=1
// @unit name=stdm cfg=stdlib defs=VP_G=2
// @unit name=fb17 std=c++17 defs=VP_G=1
// @unit name=std17 cfg=stdlib std=gnu++17 march=x86-64 defs=VP_G=1
// @unit name=stdm17 cfg=stdlib std=gnu++17 march=x86-64 defs=VP_G=2
// @bound every lane value and mask; element types of 1, 2, 4 and 8 bytes; from/to 1..17, 32, 33, 40, 64 lanes as instantiated, native, scalar, deduced and fixed_size ABIs
#include "simdh.h"
#include <vir/simd_resize.h>
template <class T, int N> using vec = stdx::simd<T, stdx::simd_abi::deduce_t<T, N>>;
template <class T, int N> using fix = stdx::fixed_size_simd<T, N>;
template <class V> V arb(typename V::value_type* a) { if constexpr (stdx::is_simd_mask_v<V>) return vp::symm<V>(a, "k"); else return vp::symv<V>(a, "x"); }
template <class R, class T> void chk(const R& r, const T* a, int n, const char* l) { bool ok = true; for (int i = 0; i < int(R::size()); ++i) ok &= vp::bits(T(r[i])) == vp::bits(i < n ? a[i] : T(0)); vp_assert(ok, l); }
template <class V, int K> void resize() {
  using T = typename V::value_type; constexpr int N = V::size(); T a[N]; const V x = arb<V>(a);
  const auto r = vir::simd_resize<K>(x);
  static_assert(decltype(r)::size() == K && std::is_same_v<typename decltype(r)::value_type, T> && stdx::is_simd_mask_v<V> == stdx::is_simd_mask_v<std::remove_const_t<decltype(r)>>);
  chk(r, a, N, "simd_resize"); chk(x, a, N, "argument unchanged");
}
template <class V, class R> void cast() {
  using T = typename V::value_type; constexpr int N = V::size(); T a[N]; const V x = arb<V>(a);
  const R r = vir::simd_size_cast<R>(x); static_assert(std::is_same_v<decltype(vir::simd_size_cast<R>(x)), R>);
  chk(r, a, N, "simd_size_cast"); chk(x, a, N, "argument unchanged");
}
#define RS(T, N, K) VP(resize_##T##_##N##_##K, resize<vec<T, N>, K>)
#define RF(T, A, K) VP(resize_##T##_##A##_##K, resize<stdx::simd<T, ab::A<T>>, K>)
#define SC(T, A, B) VP(cast_##T##_##A##_##B, cast<stdx::simd<T, ab::A<T>>, stdx::simd<T, ab::B<T>>>)
#define MR(T, N, K) VP(resize_m##T##_##N##_##K, resize<typename vec<T, N>::mask_type, K>)
#define MF(T, A, K) VP(resize_m##T##_##A##_##K, resize<stdx::simd_mask<T, ab::A<T>>, K>)
#define MC(T, A, B) VP(cast_m##T##_##A##_##B, cast<stdx::simd_mask<T, ab::A<T>>, stdx::simd_mask<T, ab::B<T>>>)
#define ALLN(X, T) X(T, 1, 1) X(T, 1, 2) X(T, 1, 5) X(T, 2, 1) X(T, 2, 2) X(T, 2, 3) X(T, 2, 4) X(T, 3, 1) X(T, 3, 2) X(T, 3, 4) X(T, 3, 7) X(T, 4, 1) X(T, 4, 2) X(T, 4, 3) X(T, 4, 4) X(T, 4, 5) X(T, 4, 8) X(T, 5, 2) X(T, 5, 4) X(T, 5, 6) X(T, 8, 3) X(T, 8, 4) X(T, 8, 7) X(T, 8, 9) X(T, 8, 16) X(T, 16, 8) X(T, 16, 5) X(T, 13, 17) X(T, 17, 13)
#define ALLC(X, T) X(T, s, n) X(T, n, s) X(T, f3, n) X(T, n, f3) X(T, f8, f4) X(T, f4, f8) X(T, n, f16) X(T, f16, n) X(T, f1, f2) X(T, f5, f12) X(T, f12, f5) X(T, f1, s) X(T, s, f7) X(T, c, f9) X(T, f9, c) X(T, n, c) X(T, n, n) X(T, f6, f6)
#define ALLF(X, T) X(T, f1, 4) X(T, f4, 2) X(T, f8, 16) X(T, f7, 8) X(T, n, 3) X(T, n, 16) X(T, s, 1) X(T, s, 4) X(T, f16, 8) X(T, f16, 1) X(T, c, 5)
#if VP_G == 1
ALLN(RS, f32) ALLN(RS, f64) ALLN(RS, i32) ALLN(RS, u8) ALLN(RS, i16) ALLN(RS, u64) ALLC(SC, f32) ALLC(SC, f64) ALLC(SC, i32) ALLC(SC, u16) ALLC(SC, i8) ALLC(SC, i64) ALLF(RF, f32) ALLF(RF, f64) ALLF(RF, i32) ALLF(RF, u8) ALLF(RF, i64) VP_WIDE(RF(u8, f64, 33) RF(u8, f33, 64) RF(i16, n, 40) SC(i8, f64, n) SC(i8, n, f64))
#else
ALLN(MR, f32) ALLN(MR, f64) ALLN(MR, i32) ALLN(MR, u8) ALLN(MR, i16) ALLN(MR, u64) ALLC(MC, f32) ALLC(MC, f64) ALLC(MC, i32) ALLC(MC, u16) ALLC(MC, i8) ALLC(MC, i64) ALLF(MF, f32) ALLF(MF, f64) ALLF(MF, i32) ALLF(MF, u8) ALLF(MF, i64) VP_WIDE(MF(u8, f64, 33) MF(u8, f33, 64) MF(i16, n, 40) MC(i8, f64, n) MC(i8, n, f64))
#endif
