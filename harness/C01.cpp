// C01: simd operators act element by element
// @unit name=i8 defs=VP_G=1
// @unit name=i16 defs=VP_G=2
// @unit name=i32 defs=VP_G=3
// @unit name=i64 defs=VP_G=4
// @unit name=fp defs=VP_G=5
// @unit name=odd defs=VP_G=6
// @unit name=i32_17 defs=VP_G=3 std=gnu++17 march=x86-64 tier=thorough
// @unit name=fp_512 defs=VP_G=5 std=gnu++23 march=x86-64-v4 tier=thorough
// @unit name=avx1 march=sandybridge defs=VP_G=1 tier=thorough
// @bound all lane values of both operands (divisor non-zero, quotient representable, shift counts in range); vir::stdx::simd of vir's own implementation; element types signed/unsigned 8..64 bit, char, wchar_t, char16_t, char32_t, long long, float, double; ABIs scalar, compatible, native and fixed_size<N> with N up to 64 as instantiated
#include "simdh.h"

#define LANES(COND) ([&] { bool ok = true; for (int i = 0; i < N; ++i) ok &= (COND); return ok; }())
#define BIN(OP, LABEL) { const V r = x OP y; vp_assert(LANES(vp::same<T>(r[i], static_cast<T>(a[i] OP b[i]))), LABEL); }
#define CMP(OP, LABEL) { V r = x; V& ref = (r OP##= y); vp_assert(LANES(vp::same<T>(r[i], static_cast<T>(a[i] OP b[i]))), LABEL); vp_assert(&ref == &r, LABEL " returns its left operand"); }
#define ALIAS(OP, LABEL) { V r = x; r OP##= r; vp_assert(LANES(vp::same<T>(r[i], static_cast<T>(a[i] OP a[i]))), LABEL); }
#define UNCHANGED vp_assert(LANES(vp::same<T>(x[i], a[i]) & vp::same<T>(y[i], b[i])), "operands unchanged");

#define HEAD using T = typename V::value_type; constexpr int N = V::size(); T a[N], b[N]; vp::sym(a, N, "x"); vp::sym(b, N, "y");

template <class V> void addsub() { HEAD
  const V x = vp::mk<V>(a), y = vp::mk<V>(b);
  BIN(+, "+") BIN(-, "-") CMP(+, "+=") CMP(-, "-=") ALIAS(+, "x += x") ALIAS(-, "x -= x")
  UNCHANGED
}
template <class V> void mul() { HEAD
  const V x = vp::mk<V>(a), y = vp::mk<V>(b);
  BIN(*, "*") CMP(*, "*=") ALIAS(*, "x *= x")
  UNCHANGED
}
template <class V> void divide() { HEAD
  if constexpr (std::is_integral_v<T>) for (int i = 0; i < N; ++i) { vp_assume(b[i] != T(0)); if (std::is_signed_v<T>) vp_assume(!(b[i] == T(-1) && a[i] == std::numeric_limits<T>::min())); }
  const V x = vp::mk<V>(a), y = vp::mk<V>(b);
  BIN(/, "/") CMP(/, "/=")
  if constexpr (std::is_integral_v<T>) { BIN(%, "%") CMP(%, "%=") }
  UNCHANGED
}
template <class V> void selfdiv() { HEAD
  if constexpr (std::is_integral_v<T>) for (int i = 0; i < N; ++i) vp_assume(a[i] != T(0));
  const V x = vp::mk<V>(a);
  ALIAS(/, "x /= x")
  if constexpr (std::is_integral_v<T>) { ALIAS(%, "x %= x") }
}
template <class V> void bitops() { HEAD
  const V x = vp::mk<V>(a), y = vp::mk<V>(b);
  BIN(&, "&") BIN(|, "|") BIN(^, "^") CMP(&, "&=") CMP(|, "|=") CMP(^, "^=") ALIAS(^, "x ^= x") ALIAS(&, "x &= x") ALIAS(|, "x |= x")
  { const V r = ~x; vp_assert(LANES(r[i] == static_cast<T>(~a[i])), "~"); }
  UNCHANGED
}
template <class V> void shifts() { HEAD
  constexpr int W = sizeof(decltype(T() + T())) * 8;
  for (int i = 0; i < N; ++i) vp_assume(b[i] >= T(0) && b[i] < T(W));
  const V x = vp::mk<V>(a), y = vp::mk<V>(b);
  BIN(<<, "<<") BIN(>>, ">>") CMP(<<, "<<=") CMP(>>, ">>=")
  int s = vp::sym1<int>("count"); vp_assume(s >= 0 && s < W);
  { const V r = x << s; vp_assert(LANES(r[i] == static_cast<T>(a[i] << s)), "<< int"); }
  { const V r = x >> s; vp_assert(LANES(r[i] == static_cast<T>(a[i] >> s)), ">> int"); }
  UNCHANGED
}
template <class V> void unary() { HEAD
  const V x = vp::mk<V>(a), y = vp::mk<V>(b);
  { const V r = +x; vp_assert(LANES(vp::same<T>(r[i], a[i])), "unary +"); }
  { const V r = -x; vp_assert(LANES(vp::same<T>(r[i], static_cast<T>(-a[i]))), "unary -"); }
  { const auto r = !x; vp_assert(LANES(r[i] == !a[i]), "operator!"); }
  UNCHANGED
}
template <class V> void incdec() { HEAD
  const V y = vp::mk<V>(b);
  { V r = vp::mk<V>(a); V& q = ++r; vp_assert(LANES(vp::same<T>(r[i], static_cast<T>(a[i] + T(1)))), "++x"); vp_assert(&q == &r, "++x returns x"); }
  { V r = vp::mk<V>(a); const V q = r++; vp_assert(LANES(vp::same<T>(r[i], static_cast<T>(a[i] + T(1))) & vp::same<T>(q[i], a[i])), "x++"); }
  { V r = vp::mk<V>(a); V& q = --r; vp_assert(LANES(vp::same<T>(r[i], static_cast<T>(a[i] - T(1)))), "--x"); vp_assert(&q == &r, "--x returns x"); }
  { V r = vp::mk<V>(a); const V q = r--; vp_assert(LANES(vp::same<T>(r[i], static_cast<T>(a[i] - T(1))) & vp::same<T>(q[i], a[i])), "x--"); }
  const V x = vp::mk<V>(a);
  // scalar operand broadcast
  const T s = b[0];
  { const V r = x + s; vp_assert(LANES(vp::same<T>(r[i], static_cast<T>(a[i] + s))), "x + scalar"); }
  { const V r = s - x; vp_assert(LANES(vp::same<T>(r[i], static_cast<T>(s - a[i]))), "scalar - x"); }
  { V r = x; r += s; vp_assert(LANES(vp::same<T>(r[i], static_cast<T>(a[i] + s))), "x += scalar"); }
  UNCHANGED
}
#define FPALL(T, A) VPI(addsub, T, A) VPI(mul, T, A) VPI(divide, T, A) VPI(selfdiv, T, A) VPI(unary, T, A) VPI(incdec, T, A)
#define INTALL(T, A) FPALL(T, A) VPI(bitops, T, A) VPI(shifts, T, A)
#define IABIS(T) INTALL(T, s) INTALL(T, n) INTALL(T, f1) INTALL(T, f3) INTALL(T, f5) INTALL(T, f12)
#define FABIS(T) FPALL(T, s) FPALL(T, n) FPALL(T, c) FPALL(T, f1) FPALL(T, f2) FPALL(T, f3) FPALL(T, f5) FPALL(T, f7) FPALL(T, f12) FPALL(T, f16) FPALL(T, f17) FPALL(T, f32)
#if VP_G == 1
IABIS(i8) IABIS(u8) INTALL(i8, c) INTALL(u8, f7) VP_WIDE(INTALL(i8, f64) VPI(addsub, u16, f300) VPI(bitops, u16, f300) VPI(shifts, i16, f300) VPI(unary, i16, f300))
#elif VP_G == 2
IABIS(i16) IABIS(u16) INTALL(i16, f17) INTALL(u16, c)
#elif VP_G == 3
IABIS(i32) IABIS(u32) INTALL(i32, f2) INTALL(u32, f16) INTALL(i32, c) INTALL(i32, f32)
#elif VP_G == 4
IABIS(i64) IABIS(u64) INTALL(i64, f2) INTALL(u64, f7)
#elif VP_G == 5
FABIS(f32) FABIS(f64) VP_WIDE(FPALL(f32, f33) VPI(addsub, f32, f300) VPI(mul, f32, f300) VPI(incdec, f32, f300))
#else
INTALL(ch, s) INTALL(ch, n) INTALL(ch, f6) INTALL(ll, s) INTALL(ll, n) INTALL(ull, f3) INTALL(ull, s) INTALL(wch, n) INTALL(c16, f9) INTALL(c32, n) INTALL(c16, s)
#endif
