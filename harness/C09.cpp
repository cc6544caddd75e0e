// C09: min, max, minmax, clamp and abs match the scalar functions
// @unit name=int8 defs=VP_G=1
// @unit name=int32 defs=VP_G=2
// @unit name=fp defs=VP_G=3
// @unit name=fp17 defs=VP_G=3 std=gnu++17 march=x86-64 tier=thorough
// @bound all lane values (floating point: no NaN for min/max/clamp; clamp: lo <= hi in every lane; abs: lowest() excluded for int and wider); vir's own implementation; element types and ABIs as instantiated
#include "simdh.h"
#define LANES(COND) ([&] { bool ok = true; for (int i = 0; i < N; ++i) ok &= (COND); return ok; }())
template <class V> void mm() {
  using T = typename V::value_type; constexpr int N = V::size(); T a[N], b[N], c[N]; vp::sym(a, N, "x"); vp::sym(b, N, "y"); vp::sym(c, N, "z");
  for (int i = 0; i < N; ++i) vp_assume(!vp::isnan(a[i]) && !vp::isnan(b[i]) && !vp::isnan(c[i]));
  const V x = vp::mk<V>(a), y = vp::mk<V>(b), z = vp::mk<V>(c);
  { const V r = min(x, y); vp_assert(LANES(vp::same<T>(r[i], std::min(a[i], b[i]))), "min"); }
  { const V r = max(x, y); vp_assert(LANES(vp::same<T>(r[i], std::max(a[i], b[i]))), "max"); }
  { const auto r = minmax(x, y); vp_assert(LANES(r.first[i] == std::min(a[i], b[i])), "minmax.first"); vp_assert(LANES(r.second[i] == std::max(a[i], b[i])), "minmax.second"); }
  for (int i = 0; i < N; ++i) vp_assume(!(c[i] < b[i]));
  { const V r = clamp(x, y, z); vp_assert(LANES(vp::same<T>(r[i], std::clamp(a[i], b[i], c[i]))), "clamp"); }
  vp_assert(LANES(vp::same<T>(x[i], a[i]) & vp::same<T>(y[i], b[i]) & vp::same<T>(z[i], c[i])), "operands unchanged");
}
template <class V> void absv() {
  using T = typename V::value_type; constexpr int N = V::size(); T a[N]; vp::sym(a, N, "x"); if constexpr (!vp::is_fp<T>) for (int i = 0; i < N; ++i) vp_assume(a[i] != std::numeric_limits<T>::lowest());
  const V x = vp::mk<V>(a); const V r = abs(x); static_assert(std::is_same_v<decltype(abs(x)), V>);
  if constexpr (vp::is_fp<T>) vp_assert(LANES(vp::same<T>(r[i], std::abs(a[i])) && !std::signbit(r[i])), "abs"); else vp_assert(LANES(r[i] == (a[i] < 0 ? T(-a[i]) : a[i])), "abs");
  vp_assert(LANES(vp::same<T>(x[i], a[i])), "abs leaves x");
}
#define A1(FN, T) VPI(FN, T, s) VPI(FN, T, n) VPI(FN, T, c) VPI(FN, T, f1) VPI(FN, T, f2) VPI(FN, T, f3) VPI(FN, T, f5) VPI(FN, T, f7) VPI(FN, T, f12) VPI(FN, T, f17)
#if VP_G == 1
A1(mm, i8) A1(mm, u8) A1(mm, i16) A1(mm, u16) A1(mm, ch) A1(absv, i8) A1(absv, i16) VP_WIDE(VPI(mm, i8, f64) VPI(absv, i8, f64))
#elif VP_G == 2
A1(mm, i32) A1(mm, u32) A1(mm, i64) A1(mm, u64) A1(mm, ll) A1(mm, ull) A1(mm, wch) A1(mm, c32) A1(absv, i32) A1(absv, i64) A1(absv, ll) VPI(mm, i32, f32)
#else
A1(mm, f32) A1(mm, f64) A1(absv, f32) A1(absv, f64) VPI(mm, f32, f32) VPI(absv, f32, f32) VP_WIDE(VPI(mm, f32, f33) VPI(mm, i32, f300))
#endif
