// C04: where() touches only the selected lanes
// @unit name=int8 defs=VP_G=1
// @unit name=int32 defs=VP_G=2
// @unit name=int64 defs=VP_G=3
// @unit name=fp defs=VP_G=4
// @unit name=mask defs=VP_G=5
// @unit name=fp23 defs=VP_G=4 std=gnu++23 march=x86-64-v4 tier=thorough
// @bound all masks, all lane values (divisors non-zero, shift counts in range); vir's own implementation; element types and ABIs as instantiated; where(bool, scalar), where(mask, simd) and where(mask, simd_mask)
#include "simdh.h"
#define LANES(COND) ([&] { bool ok = true; for (int i = 0; i < N; ++i) ok &= (COND); return ok; }())
#define HEAD using T = typename V::value_type; using M = typename V::mask_type; constexpr int N = V::size(); T a[N], b[N]; bool k[N]; vp::sym(a, N, "x"); vp::sym(b, N, "y"); \
  const M m = vp::symm<M>(k, "mask");
#define SEL(E) vp::same<T>(r[i], k[i] ? static_cast<T>(E) : a[i])
#define OPA(OP, LABEL) { V r = vp::mk<V>(a); const V y = vp::mk<V>(b); where(m, r) OP##= y; vp_assert(LANES(SEL(a[i] OP b[i])), LABEL); vp_assert(LANES(vp::same<T>(y[i], b[i]) && m[i] == k[i]), LABEL " leaves its operand and mask alone"); }
#define OPS(OP, LABEL) { V r = vp::mk<V>(a); const T y = b[0]; where(m, r) OP##= y; vp_assert(LANES(SEL(a[i] OP y)), LABEL " scalar"); }
#define OPX(OP, LABEL) { V r = vp::mk<V>(a); where(m, r) OP##= r; vp_assert(LANES(SEL(a[i] OP a[i])), LABEL " self"); }
template <class V> void arith() { HEAD
  OPA(+, "where +=") OPA(-, "where -=") OPA(*, "where *=") OPS(+, "where +=") OPS(-, "where -=") OPS(*, "where *=") OPX(+, "where +=")
  { V r = vp::mk<V>(a); const V y = vp::mk<V>(b); where(m, r) = y; vp_assert(LANES(SEL(b[i])), "where ="); }
  { V r = vp::mk<V>(a); where(m, r) = b[0]; vp_assert(LANES(SEL(b[0])), "where = scalar"); }
  { V r = vp::mk<V>(a); ++where(m, r); vp_assert(LANES(SEL(a[i] + T(1))), "++where"); }
  { V r = vp::mk<V>(a); where(m, r)++; vp_assert(LANES(SEL(a[i] + T(1))), "where++"); }
  { V r = vp::mk<V>(a); --where(m, r); vp_assert(LANES(SEL(a[i] - T(1))), "--where"); }
  { V r = vp::mk<V>(a); where(m, r)--; vp_assert(LANES(SEL(a[i] - T(1))), "where--"); }
  { const V x = vp::mk<V>(a); const V r = -where(m, x); vp_assert(LANES(SEL(-a[i])), "-where"); vp_assert(LANES(vp::same<T>(x[i], a[i])), "-where leaves x"); }
  { V x = vp::mk<V>(a); const V r = -where(m, x); vp_assert(LANES(SEL(-a[i])), "-where (non-const)"); vp_assert(LANES(vp::same<T>(x[i], a[i])), "-where leaves x"); }
}
template <class V> void divs() { HEAD
  if constexpr (std::is_integral_v<T>) for (int i = 0; i < N; ++i) { vp_assume(b[i] != T(0)); if (std::is_signed_v<T>) vp_assume(b[i] != T(-1)); }
  OPA(/, "where /=") OPS(/, "where /=")
  if constexpr (std::is_integral_v<T>) { OPA(%, "where %=") OPS(%, "where %=") }
}
// lanes that are not selected are not evaluated: a zero divisor there is fine
template <class V> void divmask() { HEAD
  for (int i = 0; i < N; ++i) { vp_assume(!k[i] || b[i] != T(0)); if (std::is_signed_v<T>) vp_assume(b[i] != T(-1)); }
  { V r = vp::mk<V>(a); const V y = vp::mk<V>(b); where(m, r) /= y; bool ok = true; for (int i = 0; i < N; ++i) if (k[i]) ok &= r[i] == static_cast<T>(a[i] / b[i]); else ok &= r[i] == a[i]; vp_assert(ok, "where /= with zero divisors in unselected lanes"); }
}
template <class V> void bits() { HEAD
  OPA(&, "where &=") OPA(|, "where |=") OPA(^, "where ^=") OPS(&, "where &=") OPS(|, "where |=") OPS(^, "where ^=") OPX(^, "where ^=")
  constexpr int W = sizeof(decltype(T() + T())) * 8;
  for (int i = 0; i < N; ++i) vp_assume(b[i] >= T(0) && b[i] < T(W));
  OPA(<<, "where <<=") OPA(>>, "where >>=") OPS(<<, "where <<=") OPS(>>, "where >>=")
}
#define BOP(OP, LABEL) { T r = a; where(k, r) OP##= b; vp_assert(vp::same<T>(r, k ? static_cast<T>(a OP b) : a), LABEL); }
template <class T> void whereb() {
  T a = vp::sym1<T>("x"), b = vp::sym1<T>("y"); const bool k = vp::sym1<bool>("k");
  using stdx::where;
  BOP(+, "where(bool) +=") BOP(-, "where(bool) -=") BOP(*, "where(bool) *=")
  { T r = a; where(k, r) = b; vp_assert(vp::same<T>(r, k ? b : a), "where(bool) ="); }
  { T r = a; ++where(k, r); vp_assert(vp::same<T>(r, k ? static_cast<T>(a + T(1)) : a), "++where(bool)"); }
  { T r = a; where(k, r)++; vp_assert(vp::same<T>(r, k ? static_cast<T>(a + T(1)) : a), "where(bool)++"); }
  { T r = a; --where(k, r); vp_assert(vp::same<T>(r, k ? static_cast<T>(a - T(1)) : a), "--where(bool)"); }
  { T r = a; where(k, r)--; vp_assert(vp::same<T>(r, k ? static_cast<T>(a - T(1)) : a), "where(bool)--"); }
  { const T c = a; const T r = -where(k, c); vp_assert(vp::same<T>(r, k ? static_cast<T>(-a) : a), "-where(bool)"); }
  if constexpr (std::is_integral_v<T>) {
    BOP(&, "where(bool) &=") BOP(|, "where(bool) |=") BOP(^, "where(bool) ^=")
    vp_assume(b > T(0) && b < T(32));
    BOP(<<, "where(bool) <<=") BOP(>>, "where(bool) >>=") BOP(%, "where(bool) %=")
  } else vp_assume(b != T(0));
  BOP(/, "where(bool) /=")
}
#define MSEL(E) r[i] == (k[i] ? bool(E) : a[i])
template <class V> void wmask() {
  using M = typename V::mask_type; constexpr int N = V::size(); bool a[N], b[N], k[N];
  const M x = vp::symm<M>(a, "x"), y = vp::symm<M>(b, "y"), m = vp::symm<M>(k, "mask");
  { M r = x; where(m, r) = y; vp_assert(LANES(MSEL(b[i])), "where(mask) ="); }
  { M r = x; where(m, r) &= y; vp_assert(LANES(MSEL(a[i] & b[i])), "where(mask) &="); }
  { M r = x; where(m, r) |= y; vp_assert(LANES(MSEL(a[i] | b[i])), "where(mask) |="); }
  { M r = x; where(m, r) ^= y; vp_assert(LANES(MSEL(a[i] ^ b[i])), "where(mask) ^="); }
  { M r = x; where(m, r) = b[0]; vp_assert(LANES(MSEL(b[0])), "where(mask) = bool"); }
  { M r = m; where(r, r) = y; vp_assert(LANES(r[i] == (k[i] ? b[i] : false)), "where(r, r) = y"); }
  vp_assert(LANES(y[i] == b[i] && m[i] == k[i]), "operands unchanged");
}
#define F(T, A) VPI(arith, T, A) VPI(divs, T, A)
#define I(T, A) F(T, A) VPI(bits, T, A) VPI(divmask, T, A)
#define IA(T) I(T, s) I(T, n) I(T, f1) I(T, f2) I(T, f3) I(T, f5) I(T, f12)
#define W(T) VP(whereb_##T, whereb<T>)
#if VP_G == 1
VP_WIDE(I(u8, f64) )IA(i8) IA(u8) IA(i16) IA(u16) W(i8) W(u8) W(i16) W(u16) W(ch)
#elif VP_G == 2
IA(i32) IA(u32) I(i32, f17) I(ch, n) W(i32) W(u32) W(c32)
#elif VP_G == 3
IA(i64) IA(u64) I(ll, f3) W(i64) W(u64)
#elif VP_G == 4
VP_WIDE(F(f32, f40)) F(f32, s) F(f32, n) F(f32, c) F(f32, f1) F(f32, f2) F(f32, f3) F(f32, f5) F(f32, f7) F(f32, f12) F(f32, f17) F(f32, f32) F(f64, s) F(f64, n) F(f64, c) F(f64, f1) F(f64, f3) F(f64, f5) F(f64, f7) F(f64, f12) F(f64, f16) W(f32) W(f64)
#else
#define K(T) VPI(wmask, T, s) VPI(wmask, T, n) VPI(wmask, T, c) VPI(wmask, T, f1) VPI(wmask, T, f2) VPI(wmask, T, f3) VPI(wmask, T, f5) VPI(wmask, T, f8) VPI(wmask, T, f17) VPI(wmask, T, f32)
VP_WIDE(VPI(wmask, i8, f64) VPI(wmask, f32, f33) VPI(wmask, u8, f130)) K(f32) K(f64) K(i8) K(u16) K(i32) K(u64)
#endif
