// C07: split and concat partition and rejoin lanes in order
// @unit name=split_int defs=VP_G=1
// @unit name=split_fp defs=VP_G=2
// @unit name=mask defs=VP_G=3
// @bound all lane values and masks; vir's own implementation; split/concat sizes as instantiated (even and uneven, up to 66 lanes)
#include "simdh.h"
template <class T, int N> using fix = stdx::fixed_size_simd<T, N>;
template <class P, class T> inline void cmp(bool& ok, int& off, const P& p, const T* a) { for (int i = 0; i < int(P::size()); ++i) ok &= vp::same<T>(p[i], a[off + i]); off += P::size(); }
// split<Sizes...>
template <class T, int... S> void splits() {
  constexpr int N = (S + ...); T a[N]; const fix<T, N> x = vp::symv<fix<T, N>>(a, "x");
  const auto t = stdx::split<S...>(x); static_assert(std::tuple_size_v<std::remove_cvref_t<decltype(t)>> == sizeof...(S));
  bool ok = true; int off = 0;
  std::apply([&](const auto&... p) { ((ok &= int(std::remove_cvref_t<decltype(p)>::size()) == S, cmp(ok, off, p, a)), ...); }, t);
  vp_assert(ok && off == N, "split<Sizes...>");
  const auto c = std::apply([](const auto&... p) { return concat(p...); }, t); static_assert(c.size() == N);
  ok = true; for (int i = 0; i < N; ++i) ok &= vp::same<T>(c[i], a[i]); vp_assert(ok, "concat(split<Sizes...>)");
  ok = true; for (int i = 0; i < N; ++i) ok &= vp::same<T>(x[i], a[i]); vp_assert(ok, "x unchanged");
}
// split<V>, concat(array)
template <class V, int N> void splitv() {
  using T = typename V::value_type; T a[N]; const fix<T, N> x = vp::symv<fix<T, N>>(a, "x");
  const auto t = stdx::split<V>(x); static_assert(std::is_same_v<const std::array<V, N / V::size()>, decltype(t)>);
  bool ok = true; int off = 0; for (const V& p : t) cmp(ok, off, p, a); vp_assert(ok && off == N, "split<V>");
  const auto c = concat(t); static_assert(c.size() == N); ok = true; for (int i = 0; i < N; ++i) ok &= vp::same<T>(c[i], a[i]); vp_assert(ok, "concat(array)");
}
template <class V> void splitself() {
  using T = typename V::value_type; constexpr int N = V::size(); T a[N]; const V x = vp::symv<V>(a, "x"); const auto t = stdx::split<V>(x); static_assert(t.size() == 1);
  bool ok = true; for (int i = 0; i < N; ++i) ok &= vp::same<T>(t[0][i], a[i]); vp_assert(ok, "split<V>(V)");
  const auto c = concat(x); static_assert(c.size() == N); ok = true; for (int i = 0; i < N; ++i) ok &= vp::same<T>(c[i], a[i]); vp_assert(ok, "concat(x)");
}
// concat of independent values
template <class T, class... V> void cat() {
  constexpr int N = (V::size() + ... + 0); T a[N]; vp::sym(a, N, "x"); int off = 0;
  auto mk = [&]<class W>(W*) { W r = vp::mk<W>(a + off); off += W::size(); return r; };
  const std::tuple<V...> t{mk(static_cast<V*>(nullptr))...};
  const auto c = std::apply([](const auto&... p) { return concat(p...); }, t); static_assert(c.size() == N);
  bool ok = true; for (int i = 0; i < N; ++i) ok &= vp::same<T>(c[i], a[i]); vp_assert(ok, "concat(pack)");
}
template <class V, int K> void catarr() {
  using T = typename V::value_type; constexpr int S = V::size(), N = S * K; T a[N]; vp::sym(a, N, "x"); std::array<V, K> t; for (int k = 0; k < K; ++k) t[k] = vp::mk<V>(a + k * S);
  const auto c = concat(t); static_assert(c.size() == N); bool ok = true; for (int i = 0; i < N; ++i) ok &= vp::same<T>(c[i], a[i]); vp_assert(ok, "concat(array)");
}
// masks
template <class M, int N> void msplitv() {
  using T = typename M::simd_type::value_type; using X = stdx::fixed_size_simd_mask<T, N>; bool a[N]; const X x = vp::symm<X>(a, "x");
  const auto t = stdx::split<M>(x); static_assert(std::is_same_v<const std::array<M, N / M::size()>, decltype(t)>);
  bool ok = true; int off = 0; for (const M& p : t) { for (int i = 0; i < int(M::size()); ++i) ok &= p[i] == a[off + i]; off += M::size(); } vp_assert(ok && off == N, "split<M>");
  const auto c = concat(t); static_assert(c.size() == N); ok = true; for (int i = 0; i < N; ++i) ok &= c[i] == a[i]; vp_assert(ok, "concat(array of masks)");
}
template <class T, class... M> void mcat() {
  constexpr int N = (M::size() + ... + 0); bool a[N]; vp::sym(a, N, "x"); int off = 0;
  auto mk = [&]<class W>(W*) { W r = vp::mkmask<W>(a + off); off += W::size(); return r; };
  const std::tuple<M...> t{mk(static_cast<M*>(nullptr))...};
  const auto c = std::apply([](const auto&... p) { return concat(p...); }, t); static_assert(c.size() == N);
  bool ok = true; for (int i = 0; i < N; ++i) ok &= c[i] == a[i]; vp_assert(ok, "concat(mask pack)");
}
template <class M> void msplitself() { constexpr int N = M::size(); bool a[N]; const M x = vp::symm<M>(a, "x"); const auto t = stdx::split<M>(x); bool ok = t.size() == 1; for (int i = 0; i < N; ++i) ok &= t[0][i] == a[i]; vp_assert(ok, "split<M>(M)"); }

#define P1(T, NM, ...) VP(splits_##T##_##NM, splits<T, __VA_ARGS__>)
#define SP(T) P1(T, 1_1, 1, 1) P1(T, 2_2, 2, 2) P1(T, 1_2, 1, 2) P1(T, 2_1, 2, 1) P1(T, 4, 4) P1(T, 4_4, 4, 4) P1(T, 3_5, 3, 5) P1(T, 1_2_3, 1, 2, 3) P1(T, 3_2_1, 3, 2, 1) P1(T, 1_2_3_4_5, 1, 2, 3, 4, 5) P1(T, 8_4_2_1, 8, 4, 2, 1) P1(T, 8_8_1, 8, 8, 1) P1(T, 16_16, 16, 16) P1(T, 7_7_7, 7, 7, 7) P1(T, 1_1_1_1_1_1_1, 1, 1, 1, 1, 1, 1, 1) P1(T, 2_2_3, 2, 2, 3) P1(T, 1_6_1, 1, 6, 1) P1(T, 9_1_9, 9, 1, 9) P1(T, 1, 1) P1(T, 4_4_4_4_4, 4, 4, 4, 4, 4)
#define V1(T, A, N) VP(splitv_##T##_##A##_##N, splitv<stdx::simd<T, ab::A<T>>, N>)
#define SV(T) V1(T, s, 1) V1(T, s, 2) V1(T, s, 3) V1(T, s, 7) V1(T, f1, 5) V1(T, f2, 2) V1(T, f2, 4) V1(T, f2, 6) V1(T, f3, 3) V1(T, f3, 6) V1(T, f3, 15) V1(T, f4, 8) V1(T, f4, 12) V1(T, f5, 20) V1(T, f8, 16) V1(T, f8, 24) V1(T, f16, 32) V1(T, n, 32) V1(T, c, 16) V1(T, c, 32) \
  VPI(splitself, T, s) VPI(splitself, T, n) VPI(splitself, T, f3) VPI(splitself, T, f17)
#define CT(T) VP(cat_##T##_a, cat<T, fix<T, 2>, fix<T, 3>>) VP(cat_##T##_b, cat<T, stdx::simd<T, ab::s<T>>, fix<T, 2>, stdx::simd<T, ab::s<T>>>) VP(cat_##T##_c, cat<T, fix<T, 4>, fix<T, 4>>) VP(cat_##T##_d, cat<T, fix<T, 1>, fix<T, 2>, fix<T, 3>, fix<T, 4>, fix<T, 5>>) VP(cat_##T##_e, cat<T, fix<T, 5>, fix<T, 1>>) VP(cat_##T##_f, cat<T, fix<T, 16>, fix<T, 15>>) VP(cat_##T##_g, cat<T, fix<T, 8>, fix<T, 8>, fix<T, 8>, fix<T, 8>>) VP(cat_##T##_h, cat<T, fix<T, 1>>) VP(cat_##T##_i, cat<T, fix<T, 3>, fix<T, 3>, fix<T, 3>>) \
  VP(catarr_##T##_a, catarr<fix<T, 3>, 4>) VP(catarr_##T##_b, catarr<stdx::simd<T, ab::s<T>>, 5>) VP(catarr_##T##_c, catarr<fix<T, 8>, 4>) VP(catarr_##T##_d, catarr<fix<T, 1>, 7>) VP(catarr_##T##_e, catarr<fix<T, 17>, 1>) VP(catarr_##T##_f, catarr<fix<T, 5>, 3>) VP(catarr_##T##_g, catarr<stdx::simd<T, ab::s<T>>, 1>)
#if VP_G == 1
SP(i8) SV(i8) CT(i8) SP(u16) SV(u16) CT(u16) SP(i32) SV(i32) CT(i32) SP(u64) SV(u64) CT(u64) SP(u8) CT(ch) VP_WIDE(P1(u8, 32_32, 32, 32) P1(i8, 33_7_24, 33, 7, 24) V1(u8, f32, 64) V1(i16, f33, 66) VP(cat_i8_w, cat<i8, fix<i8, 32>, fix<i8, 32>>) VP(catarr_u16_w, catarr<fix<u16, 33>, 2>))
#elif VP_G == 2
SP(f32) SV(f32) CT(f32) SP(f64) SV(f64) CT(f64)
#else
#define MV1(T, A, N) VP(msplitv_##T##_##A##_##N, msplitv<stdx::simd_mask<T, ab::A<T>>, N>)
#define MS(T) MV1(T, s, 1) MV1(T, s, 2) MV1(T, s, 3) MV1(T, s, 7) MV1(T, f1, 5) MV1(T, f2, 2) MV1(T, f2, 4) MV1(T, f2, 6) MV1(T, f3, 3) MV1(T, f3, 6) MV1(T, f3, 15) MV1(T, f4, 8) MV1(T, f4, 12) MV1(T, f5, 20) MV1(T, f8, 16) MV1(T, f8, 24) MV1(T, f16, 32) MV1(T, n, 32) MV1(T, c, 16) \
  VP(msplitself_##T##_s, msplitself<stdx::simd_mask<T, ab::s<T>>>) VP(msplitself_##T##_n, msplitself<stdx::simd_mask<T, ab::n<T>>>) VP(msplitself_##T##_f3, msplitself<stdx::simd_mask<T, ab::f3<T>>>)
template <class T, int N> using fm = stdx::fixed_size_simd_mask<T, N>;
#define MC(T) VP(mcat_##T##_a, mcat<T, fm<T, 2>, fm<T, 3>>) VP(mcat_##T##_b, mcat<T, stdx::simd_mask<T, ab::s<T>>, fm<T, 2>, stdx::simd_mask<T, ab::s<T>>>) VP(mcat_##T##_d, mcat<T, fm<T, 1>, fm<T, 2>, fm<T, 3>, fm<T, 4>, fm<T, 5>>) VP(mcat_##T##_e, mcat<T, fm<T, 5>, fm<T, 1>>) VP(mcat_##T##_f, mcat<T, fm<T, 16>, fm<T, 15>>) VP(mcat_##T##_g, mcat<T, fm<T, 8>, fm<T, 8>, fm<T, 8>, fm<T, 8>>) VP(mcat_##T##_h, mcat<T, fm<T, 1>>)
MS(i8) MS(u16) MS(i32) MS(u64) MS(f32) MS(f64) MC(i8) MC(u16) MC(i32) MC(u64) MC(f32) MC(f64) VP_WIDE(MV1(i8, f32, 64) MV1(f32, f33, 66) VP(mcat_i8_w, mcat<i8, fm<i8, 32>, fm<i8, 32>>) VP(mcat_f32_w, mcat<f32, fm<f32, 40>, fm<f32, 24>, fm<f32, 1>>))
#endif
