// C28: simdized structures compute and convert member by member
// @unit name=fb defs=VP_G=1
// @unit name=fb2 defs=VP_G=2
// @unit name=std cfg=stdlib defs=VP_G=1
// @unit name=std2 cfg=stdlib defs=VP_G=2
// @unit name=stdsse cfg=stdlib march=x86-64 defs=VP_G=1 tier=thorough
// @unit name=fb23 std=gnu++23 march=x86-64 defs=VP_G=1 tier=thorough
// @bound every member value of every lane (divisors non-zero and quotients representable, shift counts in range); two- and three-member templates with arithmetic, bit, shift and comparison operators (integer / and % with vir's own implementation only) and structures that are no templates, std::tuple and std::pair; widths as instantiated
#include "simdh.h"
#include <vir/simdize.h>
#include <tuple>
#include <array>
template <class T> struct P2 {
  T x, y;
#define OP(o) friend constexpr P2 operator o(const P2& a, const P2& b) { return {T(a.x o b.x), T(a.y o b.y)}; }
  OP(+) OP(-) OP(*) OP(/) OP(%) OP(&) OP(|) OP(^) OP(<<) OP(>>)
#undef OP
#define OP(o) friend constexpr auto operator o(const P2& a, const P2& b) { return (a.x o b.x) && (a.y o b.y); }
  OP(==) OP(!=) OP(<) OP(<=) OP(>) OP(>=)
#undef OP
};
template <class T> struct P3 {
  T a, b, c;
  friend constexpr P3 operator+(const P3& l, const P3& r) { return {T(l.a + r.a), T(l.b + r.b), T(l.c + r.c)}; }
  friend constexpr P3 operator-(const P3& l, const P3& r) { return {T(l.a - r.a), T(l.b - r.b), T(l.c - r.c)}; }
  friend constexpr T operator*(const P3& l, const P3& r) { return T(l.a * r.a + l.b * r.b + l.c * r.c); } // (not a structure)
};
#define FORN for (int i = 0; i < N; ++i)
template <class T, int N0> struct H {
  using S = P2<T>; using V = vir::simdize<S, N0>; static constexpr int N = V::size(); using W = std::remove_cvref_t<decltype(std::declval<V>().x)>; using B = P2<W>; using M = typename W::mask_type;
  static_assert(std::is_base_of_v<B, V> && W::size() == N);
  S a[N], b[N]; T ax[N], ay[N], bx[N], by[N];
  H(bool div, bool shift) {
    vp::sym(ax, N, "a.x"); vp::sym(ay, N, "a.y"); vp::sym(bx, N, "b.x"); vp::sym(by, N, "b.y");
    FORN { a[i] = {ax[i], ay[i]}; b[i] = {bx[i], by[i]}; }
    if constexpr (!vp::is_fp<T>) FORN {
      if (div) { vp_assume(bx[i] != 0 && by[i] != 0); if (std::is_signed_v<T>) vp_assume(bx[i] != T(-1) && by[i] != T(-1)); }
      if (shift) { vp_assume(bx[i] >= T(0) && bx[i] < T(8 * sizeof(T)) && by[i] >= T(0) && by[i] < T(8 * sizeof(T))); }
    }
  }
  V va() const { return V(vp::mk<W>(ax), vp::mk<W>(ay)); } V vb() const { return V(vp::mk<W>(bx), vp::mk<W>(by)); }
  B ba() const { return B{vp::mk<W>(ax), vp::mk<W>(ay)}; } B bb() const { return B{vp::mk<W>(bx), vp::mk<W>(by)}; }
  static bool is(const B& v, int i, S s) { return vp::same(T(v.x[i]), s.x) && vp::same(T(v.y[i]), s.y); }
};
// o on two simdized structures, on a simdized structure and its base, and with one structure broadcast
#define BINOP(NM, o, DIV, SH) template <class T, int N0> void op_##NM() { using X = H<T, N0>; X h(DIV, SH); constexpr int N = X::N; using V = typename X::V; \
  const V x = h.va(), y = h.vb(); const V r = x o y; const V r2 = x o h.bb(); const V r3 = h.ba() o y; \
  static_assert(std::is_same_v<decltype(x o y), V>); \
  bool ok = true; FORN ok &= X::is(r, i, {T(h.ax[i] o h.bx[i]), T(h.ay[i] o h.by[i])}); vp_assert(ok, "simdized " #o " simdized"); \
  ok = true; FORN ok &= X::is(r2, i, {T(h.ax[i] o h.bx[i]), T(h.ay[i] o h.by[i])}); vp_assert(ok, "simdized " #o " structure of simd"); \
  ok = true; FORN ok &= X::is(r3, i, {T(h.ax[i] o h.bx[i]), T(h.ay[i] o h.by[i])}); vp_assert(ok, "structure of simd " #o " simdized"); \
  const V r4 = x o V(h.b[0]); ok = true; FORN ok &= X::is(r4, i, {T(h.ax[i] o h.bx[0]), T(h.ay[i] o h.by[0])}); vp_assert(ok, "simdized " #o " broadcast structure"); \
  const V r5 = x o h.b[0]; ok = true; FORN ok &= X::is(r5, i, {T(h.ax[i] o h.bx[0]), T(h.ay[i] o h.by[0])}); vp_assert(ok, "simdized " #o " structure"); \
  const V r6 = h.a[0] o y; ok = true; FORN ok &= X::is(r6, i, {T(h.ax[0] o h.bx[i]), T(h.ay[0] o h.by[i])}); vp_assert(ok, "structure " #o " simdized"); \
  ok = true; FORN ok &= X::is(x, i, h.a[i]) && X::is(y, i, h.b[i]); vp_assert(ok, "operands unchanged"); }
#define CMPOP(NM, o) template <class T, int N0> void op_##NM() { using X = H<T, N0>; X h(false, false); constexpr int N = X::N; using V = typename X::V; using M = typename X::M; \
  const V x = h.va(), y = h.vb(); const M r = x o y, r2 = x o h.bb(), r3 = h.ba() o y, r5 = x o h.b[0], r6 = h.a[0] o y; \
  bool ok = true; FORN ok &= r[i] == ((h.ax[i] o h.bx[i]) && (h.ay[i] o h.by[i])); vp_assert(ok, "simdized " #o " simdized"); \
  ok = true; FORN ok &= r2[i] == r[i] && r3[i] == r[i]; vp_assert(ok, #o " with a structure of simd"); \
  ok = true; FORN ok &= r5[i] == ((h.ax[i] o h.bx[0]) && (h.ay[i] o h.by[0])) && r6[i] == ((h.ax[0] o h.bx[i]) && (h.ay[0] o h.by[i])); vp_assert(ok, #o " with a structure"); }
BINOP(add, +, false, false) BINOP(sub, -, false, false) BINOP(mul, *, false, false) BINOP(div, /, true, false) BINOP(mod, %, true, false) BINOP(and_, &, false, false) BINOP(or_, |, false, false) BINOP(xor_, ^, false, false) BINOP(shl, <<, false, true) BINOP(shr, >>, false, true)
CMPOP(eq, ==) CMPOP(ne, !=) CMPOP(lt, <) CMPOP(le, <=) CMPOP(gt, >) CMPOP(ge, >=)
template <class T, int N0> void misc() { // construction, conversion, member access
  using X = H<T, N0>; X h(false, false); constexpr int N = X::N; using V = typename X::V; using W = typename X::W; using B = typename X::B; using S = P2<T>;
  bool ok;
  { const V v = h.ba(); ok = true; FORN ok &= X::is(v, i, h.a[i]); vp_assert(ok, "construction from a structure of simd"); }
  { V v = h.va(); B b = v; ok = true; FORN ok &= X::is(b, i, h.a[i]); vp_assert(ok, "conversion to a structure of simd"); v = h.vb(); ok = true; FORN ok &= X::is(v, i, h.b[i]); vp_assert(ok, "assignment"); v = h.a[0]; ok = true; FORN ok &= X::is(v, i, h.a[0]); vp_assert(ok, "assignment of one structure"); }
  { struct Mix { T x; W y; }; const V v(Mix{h.ax[0], vp::mk<W>(h.by)}); ok = true; FORN ok &= X::is(v, i, {h.ax[0], h.by[i]}); vp_assert(ok, "construction from a structure with one broadcast member"); }
  { V v = h.va(); using vir::get; const V& c = v; ok = true; FORN ok &= vp::same(T(get<0>(c)[i]), h.ax[i]) && vp::same(T(get<1>(c)[i]), h.ay[i]); vp_assert(ok, "get<I>"); get<1>(v) = vp::mk<W>(h.bx); ok = true; FORN ok &= X::is(v, i, {h.ax[i], h.bx[i]}); vp_assert(ok, "assignment through get<I>"); }
  { V v = h.va(); auto& [p, q] = v; ok = true; FORN ok &= vp::same(T(p[i]), h.ax[i]) && vp::same(T(q[i]), h.ay[i]); vp_assert(ok, "structured binding"); p = vp::mk<W>(h.by); ok = true; FORN ok &= X::is(v, i, {h.by[i], h.ay[i]}); vp_assert(ok, "assignment through a structured binding"); }
}
template <class T, int N0> void p3() {
  using S = P3<T>; using V = vir::simdize<S, N0>; constexpr int N = V::size(); using W = std::remove_cvref_t<decltype(std::declval<V>().a)>;
  T x[3][N], y[3][N]; for (int m = 0; m < 3; ++m) { vp::sym(x[m], N, "x"); vp::sym(y[m], N, "y"); }
  const V u(vp::mk<W>(x[0]), vp::mk<W>(x[1]), vp::mk<W>(x[2])), v(vp::mk<W>(y[0]), vp::mk<W>(y[1]), vp::mk<W>(y[2]));
  const V s = u + v, d = u - v; const W p = u * v; bool ok = true, ok2 = true, ok3 = true;
  FORN { ok &= vp::same<T>(s.a[i], x[0][i] + y[0][i]) && vp::same<T>(s.b[i], x[1][i] + y[1][i]) && vp::same<T>(s.c[i], x[2][i] + y[2][i]); ok2 &= vp::same<T>(d.a[i], x[0][i] - y[0][i]) && vp::same<T>(d.b[i], x[1][i] - y[1][i]) && vp::same<T>(d.c[i], x[2][i] - y[2][i]);
    ok3 &= vp::same<T>(p[i], T(T(x[0][i] * y[0][i]) + T(x[1][i] * y[1][i])) + T(x[2][i] * y[2][i])); }
  vp_assert(ok, "three members: +"); vp_assert(ok2, "three members: -"); vp_assert(ok3, "three members: operator with a result that is no structure");
}
struct Q2 { int a; double b; }; struct Q3 { short a; float b; int c; };
template <class A> using vt = typename A::value_type;
template <class X, class A> X from(const A& a) { return vp::mk<X>(a.data()); }
template <class X, class A> bool lanes(const X& x, const A& a, int last) { bool ok = true; for (int i = 0; i < int(X::size()); ++i) ok &= vp::same<vt<A>>(x[i], a[last >= 0 ? last : i]); return ok; }
template <class S, class V, int N, class Tup, std::size_t... I> void tup2(const Tup& src, std::index_sequence<I...>) {
  using vir::get; const S one{std::get<I>(src)[N - 1]...};
  const V v(from<std::tuple_element_t<I, V>>(std::get<I>(src))...);
#define IS(w, last) (lanes(get<I>(w), std::get<I>(src), last) && ...)
  vp_assert(IS(v, -1), "construction from one simd per member");
  const V b(one); vp_assert(IS(b, N - 1), "construction from one structure broadcasts each member");
  V c = v; c = b; vp_assert(IS(c, N - 1), "assignment");
  const V t(v.as_tuple()); vp_assert(IS(t, -1), "as_tuple and back");
  const auto cv = static_cast<std::tuple<std::tuple_element_t<I, V>...>>(v); vp_assert((lanes(std::get<I>(cv), std::get<I>(src), -1) && ...), "conversion to a tuple of simd");
  V g = v; ((get<I>(g) = get<I>(b)), ...); vp_assert(IS(g, N - 1), "assignment through get<I>");
}
template <class S, int N0, class... M> void tup() { // simd_tuple: no template arguments to replace
  using V = vir::simdize<S, N0>; constexpr int N = V::size();
  std::tuple<std::array<M, N>...> src;
  [&]<std::size_t... I>(std::index_sequence<I...>) { ((vp::sym(std::get<I>(src).data(), N, "member")), ...); }(std::index_sequence_for<M...>());
  tup2<S, V, N>(src, std::index_sequence_for<M...>());
}

#define O(NM, T, N) VP(NM##_##T##_##N, (op_##NM<T, N>))
#ifdef VIR_DISABLE_STDX_SIMD
#define OD O
#else // (libstdc++ divides integers by way of floating-point division)
#define OD(NM, T, N)
#endif
#define FL(T, N) FI(T, N) O(div, T, N)
#define FI(T, N) O(add, T, N) O(sub, T, N) O(mul, T, N) O(eq, T, N) O(ne, T, N) O(lt, T, N) O(le, T, N) O(gt, T, N) O(ge, T, N) VP(misc_##T##_##N, (misc<T, N>)) VP(p3_##T##_##N, (p3<T, N>))
#define IN(T, N) FI(T, N) OD(div, T, N) OD(mod, T, N) O(and_, T, N) O(or_, T, N) O(xor_, T, N) O(shl, T, N) O(shr, T, N)
#if VP_G == 1
FL(f32, 0) FL(f32, 1) FL(f32, 3) FL(f64, 4) IN(i32, 0) IN(i32, 2) IN(u64, 3)
#else
FL(f64, 0) FL(f32, 8) FL(f64, 1) IN(i16, 4) IN(u8, 5) IN(i64, 0) IN(u32, 8)
#define TU(NM, S, N, ...) VP(tup_##NM##_##N, (tup<S, N, __VA_ARGS__>))
#define TUS(NM, S, ...) TU(NM, S, 0, __VA_ARGS__) TU(NM, S, 1, __VA_ARGS__) TU(NM, S, 3, __VA_ARGS__) TU(NM, S, 4, __VA_ARGS__)
TUS(q2, Q2, int, double) TUS(q3, Q3, short, float, int)
#endif
