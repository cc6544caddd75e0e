// C06: casts convert every lane and keep lane order
// @unit name=ints defs=VP_G=1
// @unit name=ints2 defs=VP_G=2
// @unit name=fp defs=VP_G=3
// @unit name=toabi defs=VP_G=4
// @unit name=mask defs=VP_G=5
// @unit name=all defs=VP_G=6 tier=thorough
// @unit name=all23 defs=VP_G=6 std=gnu++23 march=x86-64-v4 tier=thorough
// @bound all lane values (floating point to integer: values in the target's range); vir's own implementation; pairs of element types and ABIs as instantiated
#include "simdh.h"
#include <vir/simd_cvt.h>
#include <vir/simd_cast.h>
#define LANES(COND) ([&] { bool ok = true; for (int i = 0; i < N; ++i) ok &= (COND); return ok; }())
template <class T, class U> inline bool cvt_ok(T x) {
  if constexpr (vp::is_fp<T> && !vp::is_fp<U>) { // largest power of two interval that fits
    constexpr int d = std::numeric_limits<U>::digits; const T hi = d == 63 ? T(0x1p63) : d == 64 ? T(0x1p64) : T(1ull << (d & 63)); const T lo = std::is_signed_v<U> ? -hi : T(0); return x >= lo && x < hi; }
  else return true;
}
template <class R, class V, class U> inline void expect(const R& r, const U* a, const char* label) {
  constexpr int N = V::size(); static_assert(R::size() == V::size()); using T = typename R::value_type; (void)sizeof(V);
  vp_assert(LANES(vp::same<T>(r[i], static_cast<T>(a[i]))), label);
}
// V -> element type T
template <class V, class T> void cast() {
  using U = typename V::value_type; constexpr int N = V::size(); U a[N]; const V x = vp::symv<V>(a, "x"); for (int i = 0; i < N; ++i) vp_assume(cvt_ok<U, T>(a[i]));
  using R = stdx::rebind_simd_t<T, V>;
  { const auto r = stdx::static_simd_cast<T>(x); static_assert(std::is_same_v<decltype(r), const R>); expect<R, V>(r, a, "static_simd_cast<T>"); }
  { const R r = stdx::static_simd_cast<R>(x); expect<R, V>(r, a, "static_simd_cast<V>"); }
  { const R r = vir::static_simd_cast<T>(x); expect<R, V>(r, a, "vir::static_simd_cast<T>"); }
  { const R r = vir::cvt(x); expect<R, V>(r, a, "vir::cvt"); }
  if constexpr (vp::preserving<U, T>()) { const auto r = stdx::simd_cast<T>(x); expect<R, V>(r, a, "simd_cast<T>"); const R q = stdx::simd_cast<R>(x); expect<R, V>(q, a, "simd_cast<V>"); }
  if constexpr (std::is_convertible_v<V, R>) { const R r = x; expect<R, V>(r, a, "implicit conversion"); }
  if constexpr (std::is_constructible_v<R, const V&>) { const R r(x); expect<R, V>(r, a, "explicit conversion"); }
  vp_assert(LANES(vp::same<U>(x[i], a[i])), "source unchanged");
}
template <class T> void sccvt() { // cvt of scalars
  const i32 a = vp::sym1<i32>("x"); const T r = vir::cvt(a); vp_assert(vp::same<T>(r, static_cast<T>(a)), "vir::cvt(scalar)");
}
template <class V> void tofixed() {
  using U = typename V::value_type; constexpr int N = V::size(); U a[N]; const V x = vp::symv<V>(a, "x");
  { const stdx::fixed_size_simd<U, N> r = to_fixed_size(x); expect<stdx::fixed_size_simd<U, N>, V>(r, a, "to_fixed_size"); }
  bool b[N]; using M = typename V::mask_type; const M k = vp::symm<M>(b, "k"); { const stdx::fixed_size_simd_mask<U, N> r = to_fixed_size(k); vp_assert(LANES(r[i] == b[i]), "to_fixed_size(mask)"); }
}
template <class T> void tonative() {
  { constexpr int N = stdx::native_simd<T>::size(); using V = stdx::fixed_size_simd<T, N>; T a[N]; const V x = vp::symv<V>(a, "x"); const stdx::native_simd<T> r = to_native(x); expect<stdx::native_simd<T>, V>(r, a, "to_native");
    using M = stdx::fixed_size_simd_mask<T, N>; bool b[N]; const M k = vp::symm<M>(b, "k"); const stdx::native_simd_mask<T> q = to_native(k); vp_assert(LANES(q[i] == b[i]), "to_native(mask)"); }
  { constexpr int N = stdx::simd<T>::size(); using V = stdx::fixed_size_simd<T, N>; T a[N]; const V x = vp::symv<V>(a, "x"); const stdx::simd<T> r = to_compatible(x); expect<stdx::simd<T>, V>(r, a, "to_compatible");
    using M = stdx::fixed_size_simd_mask<T, N>; bool b[N]; const M k = vp::symm<M>(b, "k"); const stdx::simd_mask<T> q = to_compatible(k); vp_assert(LANES(q[i] == b[i]), "to_compatible(mask)"); }
}
template <class M, class T> void mcast() {
  constexpr int N = M::size(); bool b[N]; const M k = vp::symm<M>(b, "k"); using R = stdx::rebind_simd_t<T, M>;
  { const auto r = stdx::static_simd_cast<T>(k); static_assert(std::is_same_v<decltype(r), const R>); vp_assert(LANES(r[i] == b[i]), "static_simd_cast<T>(mask)"); }
  { const R r = stdx::static_simd_cast<R>(k); vp_assert(LANES(r[i] == b[i]), "static_simd_cast<M>(mask)"); }
  { const R r = vir::cvt(k); vp_assert(LANES(r[i] == b[i]), "cvt(mask)"); }
  if constexpr (std::is_convertible_v<M, R>) { const R r = k; vp_assert(LANES(r[i] == b[i]), "implicit mask conversion"); }
}
// between ABIs with the same size
template <class V, class W> void abicast() {
  using U = typename V::value_type; using T = typename W::value_type; constexpr int N = V::size(); U a[N]; const V x = vp::symv<V>(a, "x"); for (int i = 0; i < N; ++i) vp_assume(cvt_ok<U, T>(a[i]));
  const W r = stdx::static_simd_cast<W>(x); expect<W, V>(r, a, "static_simd_cast<V> to another ABI");
  using M = typename V::mask_type; using R = typename W::mask_type; bool b[N]; const M k = vp::symm<M>(b, "k"); const R q = stdx::static_simd_cast<R>(k); vp_assert(LANES(q[i] == b[i]), "static_simd_cast<M> to another ABI");
}
#define C1(U, T, A) VP(cast_##U##_##T##_##A, cast<stdx::simd<U, ab::A<U>>, T>)
#define CA(U, T) C1(U, T, s) C1(U, T, f1) C1(U, T, f2) C1(U, T, f3) C1(U, T, f8)
#define CI(U) CA(U, i8) CA(U, u8) CA(U, i16) CA(U, u16) CA(U, i32) CA(U, u32) CA(U, i64) CA(U, u64) CA(U, ch)
#define CF(U) CA(U, f32) CA(U, f64)
#if VP_G == 1
CI(i8) CI(u8) CI(i16) CI(u16) CI(ch) VP_WIDE(C1(i8, u16, f64) C1(i16, i8, f40) C1(u8, i64, f33))
#elif VP_G == 2
CI(i32) CI(u32) CI(i64) CI(u64) CA(ll, i32) CA(i32, ll) CA(ull, u32) CA(c16, u32) CA(c32, i32) CA(wch, i32)
#elif VP_G == 3
#define FF(U) C1(U, i8, s) C1(U, i8, f3) C1(U, u8, f3) C1(U, i16, f3) C1(U, u16, f2) C1(U, i32, s) C1(U, i32, f3) C1(U, u32, f3) C1(U, i64, f3) C1(U, u64, f3) C1(U, u64, s) CF(U)
FF(f32) FF(f64) CF(i8) CF(u8) CF(i16) CF(u16) CF(i32) CF(u32) CF(i64) CF(u64) VP_WIDE(C1(f32, f64, f33) C1(i32, f32, f64) C1(i16, i32, f300))
VP(sccvt_i8, sccvt<i8>) VP(sccvt_u16, sccvt<u16>) VP(sccvt_i64, sccvt<i64>) VP(sccvt_f32, sccvt<f32>) VP(sccvt_f64, sccvt<f64>)
#elif VP_G == 4
#define TF(T) VPI(tofixed, T, s) VPI(tofixed, T, n) VPI(tofixed, T, c) VPI(tofixed, T, f1) VPI(tofixed, T, f3) VPI(tofixed, T, f4) VPI(tofixed, T, f8) VPI(tofixed, T, f17) VP(tonative_##T, tonative<T>)
TF(i8) TF(u8) TF(i16) TF(u16) TF(i32) TF(u32) TF(i64) TF(u64) TF(f32) TF(f64) TF(ch)
#define AC(U, T) VP(abicast_##U##_##T##_s1, abicast<stdx::simd<U, ab::s<U>>, stdx::simd<T, ab::f1<T>>>) VP(abicast_##U##_##T##_1s, abicast<stdx::simd<U, ab::f1<U>>, stdx::simd<T, ab::s<T>>>)
AC(i32, i32) AC(i32, f32) AC(f32, i64) AC(f32, f64) AC(f64, f32) AC(u8, i16) AC(u64, i8)
#elif VP_G == 5
#define M1(U, T, A) VP(mcast_##U##_##T##_##A, mcast<stdx::simd_mask<U, ab::A<U>>, T>)
#define MA(U, T) M1(U, T, s) M1(U, T, f1) M1(U, T, f2) M1(U, T, f3) M1(U, T, f8) M1(U, T, f16) M1(U, T, f17)
#define MM(U) MA(U, i8) MA(U, u16) MA(U, i32) MA(U, u64) MA(U, f32) MA(U, f64)
MM(i8) MM(i16) MM(u32) MM(i64) MM(f32) MM(f64) VP_WIDE(M1(i8, f32, f64) M1(f64, i8, f64) M1(u16, i32, f33))
#else
#define C2(U, T) C1(U, T, f4) C1(U, T, f5) C1(U, T, f16) C1(U, T, n)
#define CC(U) C2(U, i8) C2(U, u8) C2(U, i16) C2(U, u16) C2(U, i32) C2(U, u32) C2(U, i64) C2(U, u64) C2(U, f32) C2(U, f64)
CC(i8) CC(u8) CC(i16) CC(u16) CC(i32) CC(u32) CC(i64) CC(u64) CC(f32) CC(f64)
#endif
