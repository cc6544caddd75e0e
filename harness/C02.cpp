// C02: comparisons and mask operators act lane by lane
// @unit name=cmp_int defs=VP_G=1
// @unit name=cmp_fp defs=VP_G=2
// @unit name=mask defs=VP_G=3
// @unit name=cmp_fp17 defs=VP_G=2 std=gnu++17 march=x86-64 tier=thorough
// @bound all lane values / all masks; vir's own implementation; element types 8..64 bit integers, char types, float, double; ABIs scalar, compatible, native, fixed_size<N> up to 65, 130 and 300, as instantiated
#include "simdh.h"
#define LANES(COND) ([&] { bool ok = true; for (int i = 0; i < N; ++i) ok &= (COND); return ok; }())
#define CMPOP(OP) { const auto m = x OP y; vp_assert(LANES(m[i] == (a[i] OP b[i])), #OP); }
template <class V> void compare() {
  using T = typename V::value_type; constexpr int N = V::size(); T a[N], b[N]; vp::sym(a, N, "x"); vp::sym(b, N, "y");
  const V x = vp::mk<V>(a), y = vp::mk<V>(b);
  CMPOP(==) CMPOP(!=) CMPOP(<) CMPOP(<=) CMPOP(>) CMPOP(>=)
  { const T s = b[0]; const auto m = x < s; vp_assert(LANES(m[i] == (a[i] < s)), "x < scalar"); const auto k = s <= x; vp_assert(LANES(k[i] == (s <= a[i])), "scalar <= x"); const auto e = x == s; vp_assert(LANES(e[i] == (a[i] == s)), "x == scalar"); }
  vp_assert(LANES(vp::same<T>(x[i], a[i]) & vp::same<T>(y[i], b[i])), "operands unchanged");
}
#define MOP(OP, E) { const M m = x OP y; vp_assert(LANES(m[i] == (E)), #OP); }
#define MCA(OP, E) { M m = x; M& r = (m OP y); vp_assert(LANES(m[i] == (E)), #OP); vp_assert(&r == &m, #OP " returns its left operand"); }
template <class V> void masks() {
  using M = typename V::mask_type; constexpr int N = V::size(); bool a[N], b[N];
  const M x = vp::symm<M>(a, "x"), y = vp::symm<M>(b, "y");
  MOP(&&, a[i] && b[i]) MOP(||, a[i] || b[i]) MOP(&, a[i] && b[i]) MOP(|, a[i] || b[i]) MOP(^, a[i] != b[i]) MOP(==, a[i] == b[i]) MOP(!=, a[i] != b[i])
  MCA(&=, a[i] && b[i]) MCA(|=, a[i] || b[i]) MCA(^=, a[i] != b[i])
  { const M m = !x; vp_assert(LANES(m[i] == !a[i]), "!"); }
  { M m = x; m &= m; vp_assert(LANES(m[i] == a[i]), "m &= m"); m |= m; vp_assert(LANES(m[i] == a[i]), "m |= m"); m ^= m; vp_assert(LANES(m[i] == false), "m ^= m"); }
  vp_assert(LANES(x[i] == a[i] && y[i] == b[i]), "operands unchanged");
}
#define C(T) VPI(compare, T, s) VPI(compare, T, n) VPI(compare, T, c) VPI(compare, T, f1) VPI(compare, T, f2) VPI(compare, T, f3) VPI(compare, T, f7) VPI(compare, T, f17) VPI(compare, T, f32)
#define K(T) VPI(masks, T, s) VPI(masks, T, n) VPI(masks, T, c) VPI(masks, T, f1) VPI(masks, T, f2) VPI(masks, T, f3) VPI(masks, T, f4) VPI(masks, T, f5) VPI(masks, T, f8) VPI(masks, T, f12) VPI(masks, T, f17) VPI(masks, T, f32)
#if VP_G == 1
VP_WIDE(VPI(compare, i8, f64) VPI(compare, u32, f33) VPI(compare, i32, f300))
C(i8) C(u8) C(i16) C(u16) C(i32) C(u32) C(i64) C(u64) C(ch) C(ll) C(ull) C(c16) C(c32) C(wch)
#elif VP_G == 2
C(f32) C(f64) VPI(compare, f32, f5) VPI(compare, f64, f5) VPI(compare, f32, f12) VPI(compare, f64, f12) VPI(compare, f32, f16)
#else
VP_WIDE(VPI(masks, i8, f64) VPI(masks, f64, f65) VPI(masks, f32, f40) VPI(masks, u8, f300))
K(f32) K(f64) K(i8) K(u16) K(i32) K(u64)
#endif
