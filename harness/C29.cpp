// C29: constexpr_wrapper with run-time operands computes with the wrapped value
// @unit name=cxx20 
// @unit name=cxx23 std=gnu++23
// @unit name=cxx20sse march=x86-64 tier=thorough
// @bound every run-time value of the other operand / argument / subscript (divisors non-zero, quotients representable, shift counts and subscripts in range); wrapped integers, floats, structures, arrays and function objects as instantiated
#include "simdh.h"
#include <vir/constexpr_wrapper.h>
#include <array>
template <auto X, class U> void ops() { // wrapper and run-time value
  using T = decltype(X); const U u = vp::sym1<U>("u"); constexpr auto c = vir::cw<X>;
#define B(o) { vp_assert(vp::same((c o u), (X o u)), "wrapper " #o " value"); vp_assert(vp::same((u o c), (u o X)), "value " #o " wrapper"); static_assert(std::is_same_v<decltype(c o u), decltype(X o u)>); }
#define C(o) vp_assert((c o u) == (X o u), "wrapper " #o " value"); vp_assert((u o c) == (u o X), "value " #o " wrapper");
  if constexpr (std::is_integral_v<T> && std::is_integral_v<U>) { // (no overflow of signed operations: small operands)
    vp_assume(u >= U(0) && u < U(100));
    B(+) B(-) B(*) B(&) B(|) B(^)
    { vp_assert((c << (u & U(7))) == (X << (u & U(7))), "wrapper << value"); vp_assert((c >> (u & U(7))) == (X >> (u & U(7))), "wrapper >> value"); }
    if (u != U(0)) { vp_assert(vp::same((c / u), (X / u)), "wrapper / value"); vp_assert(vp::same((c % u), (X % u)), "wrapper % value"); }
    if constexpr (X > 0) { vp_assert(vp::same((u / c), (u / X)), "value / wrapper"); vp_assert(vp::same((u % c), (u % X)), "value % wrapper"); }
  } else { B(+) B(-) B(*) vp_assert(vp::same((c / u), (X / u)), "wrapper / value"); }
  C(==) C(!=) C(<) C(<=) C(>) C(>=)
  { const T t = c; vp_assert(vp::same(t, T(X)) && vp::same(T(c()), T(X)) && vp::same(T(c.value), T(X)), "conversion, call and value"); }
  { U w = u; w = static_cast<U>(c); vp_assert(vp::same(w, static_cast<U>(X)), "assignment from a wrapper"); }
}
struct Lin { int k, m; constexpr int operator()(int x) const { return (x ^ k) + (m & x); } constexpr int operator()(int x, int y) const { return (x & k) - (y & m); } constexpr void operator()(int& x, const char*) const { x = x ^ k; } constexpr unsigned operator()(unsigned&& r, int& l) const { l = int(r & 255); return r ^ unsigned(k); } };
constexpr int sub(int a, int b) { return (a & 0xffff) - (b & 0xffff); }
void call() {
  const int x = vp::sym1<int>("x"), y = vp::sym1<int>("y"); vp_assume(x < (1 << 30) && x > -(1 << 30));
  constexpr auto f = vir::cw<Lin{0x55, 0x33}>;
  vp_assert(f(x) == (x ^ 0x55) + (0x33 & x), "call with a run-time argument");
  vp_assert(f(x, y) == (x & 0x55) - (y & 0x33), "call with two run-time arguments");
  vp_assert(f(x, vir::cw<7>) == (x & 0x55) - (7 & 0x33), "call with a run-time and a constant argument"); vp_assert(f(vir::cw<7>, y) == (7 & 0x55) - (y & 0x33), "call with a constant and a run-time argument");
  { int z = x; f(z, "r"); vp_assert(z == (x ^ 0x55), "an lvalue argument is passed by reference"); }
  { unsigned r = unsigned(y); int l = 0; const unsigned q = f(std::move(r), l); vp_assert(q == (unsigned(y) ^ 0x55u) && l == (y & 255), "rvalue and lvalue arguments are forwarded"); }
  vp_assert(vir::cw<sub>(x, y) == (x & 0xffff) - (y & 0xffff), "function pointer with run-time arguments"); vp_assert(vir::cw<sub>(x, vir::cw<3>) == (x & 0xffff) - 3, "function pointer with a run-time and a constant argument");
  vp_assert(vir::cw<[](auto a, auto b) { return (a & 1) ? b : a; }>(x, y) == ((x & 1) ? y : x), "lambda");
}
template <class T, int N> struct Arr { T d[N]; constexpr const T& operator[](std::size_t i) const { return d[i]; } constexpr bool operator==(const Arr&) const = default; };
template <class T> void subscr() {
  constexpr std::array<T, 6> a = {T(3), T(1), T(4), T(1), T(5), T(9)}; constexpr Arr<T, 5> b = {{T(2), T(7), T(1), T(8), T(2)}};
  const std::size_t i = vp::sym1<std::size_t>("i"); const int j = vp::sym1<int>("j");
  vp_assume(i < 6 && j >= 0 && j < 5);
  vp_assert(vp::same(vir::cw<a>[i], a[i]), "subscript of a wrapped std::array"); vp_assert(vp::same(vir::cw<b>[j], b.d[j]), "subscript of a wrapped structure");
  vp_assert(&vir::cw<a>[i] == &vir::cw<a>.value[i], "the element of the wrapped object is referred to");
  vp_assert(vp::same(T(vir::cw<a>[vir::cw<2>]), a[2]), "constant subscript");
}
#define O(NM, X, U) VP(ops_##NM##_##U, (ops<X, U>))
O(i5, 5, i32) O(i5, 5, i64) O(i5, 5, u32) O(im3, -3, i32) O(u7, 7u, u32) O(u7, 7u, u64) O(l100, 100L, i64) O(l100, 100L, i32) O(s3, short(3), i32) O(c2, static_cast<signed char>(2), i32) O(f1, 1.5f, f32) O(d2, -2.25, f64) O(i3, 3, f64)
VP(call, call) VP(subscr_i32, subscr<i32>) VP(subscr_f32, subscr<f32>) VP(subscr_u8, subscr<u8>) VP(subscr_i64, subscr<i64>)
