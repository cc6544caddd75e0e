// C14: simd_shift_in shifts lanes across a sequence of vectors
// @unit name=fb defs=VP_G=1
// @unit name=fb2 defs=VP_G=2
// @unit name=fbm defs=VP_G=3
// @unit name=std cfg=stdlib defs=VP_G=1
// @unit name=std2 cfg=stdlib defs=VP_G=2
// @unit name=stdm cfg=stdlib defs=VP_G=3
// @bound every lane value; 1..4 vectors (and masks) of 1..16 and 33 lanes of 1-, 2-, 4- and 8-byte elements; every offset from 0 to size * (vectors - 1), and offsets past the end (zeros)
#include "simdh.h"
#include <vir/simd_permute.h>
template <class T, int N> using vec = stdx::simd<T, stdx::simd_abi::deduce_t<T, N>>;
template <class V> V arb(typename V::value_type* a) { if constexpr (stdx::is_simd_mask_v<V>) return vp::symm<V>(a, "k"); else return vp::symv<V>(a, "x"); }
template <class V, int K> void sh() {
  using T = typename V::value_type; constexpr int N = V::size(); T a[N * K];
  [&]<int... J>(std::integer_sequence<int, J...>) {
    const V x[K] = {arb<V>(a + N * J)...};
    auto one = [&]<int O>(std::integral_constant<int, O>) {
      const V r = vir::simd_shift_in<O>(x[J]...);
      bool ok = true; for (int i = 0; i < N; ++i) ok &= vp::bits(T(r[i])) == vp::bits(i + O < N * K ? a[i + O < N * K ? i + O : 0] : T());
      vp_assert(ok, "lane i is lane i + Offset of the concatenation, zero past its end");
    };
    [&]<int... O>(std::integer_sequence<int, O...>) { (one(std::integral_constant<int, O>()), ...); }(std::make_integer_sequence<int, N * (K - 1) + 1>());
    // past the end: zeros
    [&]<int... O>(std::integer_sequence<int, O...>) { (one(std::integral_constant<int, N * (K - 1) + 1 + O>()), ...); }(std::make_integer_sequence<int, (N < 8 ? N + 1 : 3)>());
    one(std::integral_constant<int, N * K - 1>()); one(std::integral_constant<int, N * K>()); one(std::integral_constant<int, N * K + 1>()); one(std::integral_constant<int, 1 << 20>());
    bool ok = true; for (int j = 0; j < K; ++j) for (int i = 0; i < N; ++i) ok &= vp::bits(T(x[j][i])) == vp::bits(a[N * j + i]); vp_assert(ok, "arguments unchanged");
  }(std::make_integer_sequence<int, K>());
}
#define S(T, N, K) VP(sh_##T##_##N##_##K, (sh<vec<T, N>, K>))
#define F(T, A, K) VP(sh_##T##_##A##_##K, (sh<stdx::simd<T, ab::A<T>>, K>))
#define M(T, N, K) VP(sh_m##T##_##N##_##K, (sh<typename vec<T, N>::mask_type, K>))
#if VP_G == 1
S(f32, 4, 1) S(f32, 1, 2) S(f32, 2, 2) S(f32, 3, 2) S(f32, 4, 2) S(f32, 5, 2) S(f32, 7, 2) S(f32, 8, 2) S(f32, 8, 3) S(f32, 4, 4) S(f32, 3, 3) S(f64, 2, 2) S(f64, 3, 2) S(f64, 4, 2) S(f64, 4, 3) S(f64, 2, 4) S(f64, 1, 3)
#elif VP_G == 2
S(i32, 4, 2) S(i32, 8, 2) S(u32, 5, 3) S(i64, 2, 3) S(u64, 4, 2) S(i16, 8, 2) S(u16, 16, 2) S(i16, 3, 4) S(i8, 16, 2) S(u8, 7, 3) F(i32, f6, 2) F(i16, f12, 2) F(f64, f8, 2) F(f32, s, 4) F(i32, n, 2) F(u8, f9, 2) VP_WIDE(F(u8, f33, 2))
#else
M(f32, 1, 2) M(f32, 3, 2) M(f32, 4, 2) M(f32, 8, 2) M(f64, 4, 3) M(i32, 5, 3) M(i16, 8, 2) M(u8, 16, 2) M(i64, 2, 4)
#endif
