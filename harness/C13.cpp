// C13: permutations route lanes as documented
// @unit name=fb_a defs=VP_G=1
// @unit name=fb_b defs=VP_G=2
// @unit name=fb_m defs=VP_G=3
// @unit name=std_a cfg=stdlib defs=VP_G=1
// @unit name=std_b cfg=stdlib defs=VP_G=2
// @unit name=std_m cfg=stdlib defs=VP_G=3
// @unit name=fbsse march=x86-64 defs=VP_G=4
// @unit name=stdsse cfg=stdlib march=x86-64 defs=VP_G=4
// @bound every lane value; element types of 1, 2, 4 and 8 bytes and masks; widths 1..17, 32, 33; the predefined permutations with every offset in [-2 size - 1, 2 size + 1] (rotate, shift) respectively every position (broadcast), user-defined permutations with and without size argument, zero and uninit, results with fewer and more lanes
#include "simdh.h"
#include <vir/simd_permute.h>
namespace sp = vir::simd_permutations;
inline constexpr int Z = 1 << 20, U = Z + 1;
template <class V, int N> using sized = stdx::resize_simd_t<N, V>;
template <class T, int N> using vec = stdx::simd<T, stdx::simd_abi::deduce_t<T, N>>;
template <class V> V arb(typename V::value_type* a) { if constexpr (stdx::is_simd_mask_v<V>) return vp::symm<V>(a, "k"); else return vp::symv<V>(a, "x"); }
// lane i of r is a[ref(i)], with the reference given independently of the library's functors
template <class R, class T, class F> bool chk(const R& r, const T* a, int size, F ref) {
  bool ok = true;
  for (int i = 0; i < int(R::size()); ++i) { const int j = ref(i); if (j == U) continue; const T e = j == Z ? T(0) : a[j < 0 ? j + size : j]; ok &= vp::bits(T(r[i])) == vp::bits(e); }
  return ok;
}
#define CK(EXPR, LABEL, ...) { const auto r = EXPR; vp_assert(chk(r, a, N, [=](int i) -> int { __VA_ARGS__; }), LABEL); }
constexpr int md(int i, int n) { return ((i % n) + n) % n; }
// the predefined permutations
template <class V> void pre() {
  using T = typename V::value_type; constexpr int N = V::size(); T a[N]; const V x = arb<V>(a);
  CK(vir::simd_permute(x, sp::duplicate_even), "duplicate_even", return i - i % 2)
  if constexpr (N % 2 == 0) CK(vir::simd_permute(x, sp::duplicate_odd), "duplicate_odd", return i - i % 2 + 1)
  CK(vir::simd_permute(x, sp::reverse), "reverse", return N - 1 - i)
  CK(vir::simd_permute(x, sp::broadcast_first), "broadcast_first", return 0)
  CK(vir::simd_permute(x, sp::broadcast_last), "broadcast_last", return N - 1)
  if constexpr (N % 2 == 0) CK(vir::simd_permute(x, sp::swap_neighbors<>), "swap_neighbors<1>", return i % 2 ? i - 1 : i + 1)
  if constexpr (N % 4 == 0) CK(vir::simd_permute(x, sp::swap_neighbors<2>), "swap_neighbors<2>", return i % 4 >= 2 ? i - 2 : i + 2)
  if constexpr (N % 6 == 0) CK(vir::simd_permute(x, sp::swap_neighbors<3>), "swap_neighbors<3>", return i % 6 >= 3 ? i - 3 : i + 3)
  if constexpr (N % 8 == 0) CK(vir::simd_permute(x, sp::swap_neighbors<4>), "swap_neighbors<4>", return i % 8 >= 4 ? i - 4 : i + 4)
  if constexpr (N % 10 == 0) CK(vir::simd_permute(x, sp::swap_neighbors<5>), "swap_neighbors<5>", return i % 10 >= 5 ? i - 5 : i + 5)
  if constexpr (N % 16 == 0) CK(vir::simd_permute(x, sp::swap_neighbors<8>), "swap_neighbors<8>", return i % 16 >= 8 ? i - 8 : i + 8)
  [&]<int... P>(std::integer_sequence<int, P...>) { ([&] { CK(vir::simd_permute(x, sp::broadcast<P - N>), "broadcast<negative>", return P) CK(vir::simd_permute(x, sp::broadcast<P>), "broadcast<P>", return P) }(), ...); }(std::make_integer_sequence<int, (N > 8 ? 8 : N)>());
  CK(vir::simd_permute(x, sp::broadcast<N - 1>), "broadcast<N-1>", return N - 1)
}
// rotate and shift by every offset
template <class V> void rot() {
  using T = typename V::value_type; constexpr int N = V::size(); T a[N]; const V x = arb<V>(a);
  auto one = [&]<int O>(std::integral_constant<int, O>) {
    CK(vir::simd_permute(x, sp::rotate<O>), "rotate", return md(i + O, N))
    if constexpr (O <= N && O >= -N) CK(vir::simd_permute(x, sp::shift<O>), "shift", return i + O < 0 || i + O >= N ? Z : i + O)
  };
  constexpr int L = N <= 9 ? 2 * N + 1 : N + 1;
  [&]<int... K>(std::integer_sequence<int, K...>) { (one(std::integral_constant<int, K - L>()), ...); }(std::make_integer_sequence<int, 2 * L + 1>());
}
// user-defined permutations
template <class V> void user() {
  using T = typename V::value_type; constexpr int N = V::size(); T a[N]; const V x = arb<V>(a);
  CK(vir::simd_permute(x, [](auto i) { return int(i); }), "identity", return i)
  CK(vir::simd_permute(x, [](unsigned i) { return i * 5 % N; }), "f(i), unsigned", return i * 5 % N)
  CK(vir::simd_permute(x, [](int i, int n) { return (i * 3 + 1) % n; }), "f(i, size)", return (i * 3 + 1) % N)
  CK(vir::simd_permute(x, [](auto i, auto n) { return int(n) - 1 - int(i) / 2; }), "f(i, size), constants", return N - 1 - i / 2)
  CK(vir::simd_permute(x, [](int i) { return -1 - i / 2; }), "negative indexes", return N - 1 - i / 2)
  CK(vir::simd_permute(x, [](int i) { return i % 2 ? -N : -1; }), "negative extremes", return i % 2 ? 0 : N - 1)
  CK(vir::simd_permute(x, [](int) { return vir::simd_permute_zero; }), "all zero", return Z)
  CK(vir::simd_permute(x, [](int i) { return i % 3 == 1 ? vir::simd_permute_zero : N - 1 - i; }), "some zero", return i % 3 == 1 ? Z : N - 1 - i)
  CK(vir::simd_permute(x, [](int i) { return i % 2 == 1 ? vir::simd_permute_zero : i; }), "odd zero", return i % 2 == 1 ? Z : i)
  CK(vir::simd_permute(x, [](int i) { return i % 3 == 2 ? vir::simd_permute_uninit : i == 0 ? vir::simd_permute_zero : -1 - i; }), "some unspecified", return i % 3 == 2 ? U : i == 0 ? Z : N - 1 - i)
  bool ok = true; for (int i = 0; i < N; ++i) ok &= vp::bits(T(x[i])) == vp::bits(a[i]); vp_assert(ok, "argument unchanged");
}
// R lanes
template <class V, int R> void res() {
  using T = typename V::value_type; constexpr int N = V::size(); T a[N]; const V x = arb<V>(a);
  static_assert(decltype(vir::simd_permute<R>(x, sp::reverse))::size() == R || R > N);
  CK(vir::simd_permute<R>(x, [](int i) { return i % N; }), "more or fewer lanes", return i % N)
  CK(vir::simd_permute<R>(x, [](int i, int n) { return n - 1 - i % N; }), "more or fewer lanes, size", return N - 1 - i % N)
  CK(vir::simd_permute<R>(x, [](int i) { return i < N ? -1 - i : vir::simd_permute_zero; }), "zero-extended", return i < N ? N - 1 - i : Z)
  CK(vir::simd_permute<R>(x, sp::broadcast_last), "broadcast_last", return N - 1)
  CK(vir::simd_permute<R>(x, sp::broadcast_first), "broadcast_first", return 0)
  CK(vir::simd_permute<R>(x, sp::rotate<2>), "rotate<2>", return (i + 2) % N)
  CK(vir::simd_permute<R>(x, sp::rotate<-1>), "rotate<-1>", return md(i - 1, N))
  CK(vir::simd_permute<R>(x, sp::rotate<-4>), "rotate<-4>", return md(i - 4, N))
}
// vectorizable arguments
template <class T> void scal() {
  constexpr int N = 1; T a[1]; vp::sym(a, 1, "x"); const T x = a[0];
  auto ck = [&](auto r, int j) { return vp::bits(T(r)) == vp::bits(j == Z ? T(0) : x); };
  vp_assert(ck(vir::simd_permute(x, sp::reverse), 0), "scalar reverse"); vp_assert(ck(vir::simd_permute(x, sp::duplicate_even), 0), "scalar duplicate_even");
  vp_assert(ck(vir::simd_permute(x, sp::broadcast_last), 0), "scalar broadcast_last"); vp_assert(ck(vir::simd_permute(x, sp::rotate<3>), 0), "scalar rotate"); vp_assert(ck(vir::simd_permute(x, sp::rotate<-3>), 0), "scalar rotate right");
  vp_assert(ck(vir::simd_permute(x, sp::shift<1>), Z), "scalar shift"); vp_assert(ck(vir::simd_permute(x, sp::shift<-1>), Z), "scalar shift right"); vp_assert(ck(vir::simd_permute(x, sp::shift<0>), 0), "scalar shift 0");
  vp_assert(ck(vir::simd_permute(x, [](int) { return vir::simd_permute_zero; }), Z), "scalar zero"); vp_assert(ck(vir::simd_permute<1>(x, [](int, int n) { return -n; }), 0), "scalar f(i, size)");
  static_assert(std::is_same_v<decltype(vir::simd_permute(x, sp::reverse)), T>);
  CK(vir::simd_permute<2>(x, [](int i) { return i ? vir::simd_permute_zero : 0; }), "scalar to 2 lanes", return i ? Z : 0)
  CK(vir::simd_permute<5>(x, sp::broadcast_last), "scalar to 5 lanes", return 0)
}
#define PN(NM, V) VP(pre_##NM, pre<V>) VP(user_##NM, user<V>) VP(rot_##NM, rot<V>)
#define P(T, N) PN(T##_##N, (vec<T, N>))
#define PF(T, A) VP(pre_##T##_##A, (pre<stdx::simd<T, ab::A<T>>>)) VP(user_##T##_##A, (user<stdx::simd<T, ab::A<T>>>)) VP(rot_##T##_##A, (rot<stdx::simd<T, ab::A<T>>>))
#define PM(T, N) VP(pre_m##T##_##N, (pre<typename vec<T, N>::mask_type>)) VP(user_m##T##_##N, (user<typename vec<T, N>::mask_type>)) VP(rot_m##T##_##N, (rot<typename vec<T, N>::mask_type>))
#undef PN
#undef P
#define P(T, N) VP(pre_##T##_##N, (pre<vec<T, N>>)) VP(user_##T##_##N, (user<vec<T, N>>)) VP(rot_##T##_##N, (rot<vec<T, N>>))
#define R(T, N, K) VP(res_##T##_##N##_##K, (res<vec<T, N>, K>))
#define RM(T, N, K) VP(res_m##T##_##N##_##K, (res<typename vec<T, N>::mask_type, K>))
#if VP_G == 1
P(f32, 1) P(f32, 2) P(f32, 3) P(f32, 4) P(f32, 5) P(f32, 6) P(f32, 7) P(f32, 8) P(f32, 9) P(f32, 12) P(f32, 16) P(f64, 1) P(f64, 2) P(f64, 3) P(f64, 4) P(f64, 5) P(f64, 8)
R(f32, 8, 4) R(f32, 8, 2) R(f32, 8, 16) R(f32, 8, 3) R(f32, 8, 5) R(f32, 4, 8) R(f32, 4, 3) R(f32, 5, 8) R(f32, 3, 4) R(f32, 16, 8) R(f32, 8, 1) R(f32, 1, 4) R(f32, 2, 8) R(f64, 4, 2) R(f64, 4, 8) R(f64, 2, 4) R(f64, 3, 4) R(f64, 4, 3) R(f32, 6, 8) R(f32, 8, 6) R(f32, 7, 5)
VP(scal_f32, scal<f32>) VP(scal_f64, scal<f64>) VP(scal_i32, scal<i32>) VP(scal_u8, scal<u8>) VP(scal_i64, scal<i64>) VP(scal_u16, scal<u16>)
#elif VP_G == 2
P(i32, 2) P(i32, 3) P(i32, 4) P(i32, 6) P(i32, 8) P(u32, 7) P(i64, 2) P(i64, 3) P(i64, 4) P(u64, 6) P(i16, 3) P(i16, 8) P(u16, 16) P(i16, 13) P(i8, 16) P(u8, 5) P(u8, 32) P(i8, 3) PF(i32, f8) PF(i32, f5) PF(u8, f16) PF(f64, f4) PF(f32, f8) VP_WIDE(PF(u8, f33))
R(i32, 8, 4) R(i32, 4, 8) R(i32, 5, 3) R(i16, 16, 8) R(i16, 8, 16) R(i8, 32, 16) R(u8, 16, 32) R(u8, 3, 7) R(i64, 4, 2) R(i64, 3, 2) R(i64, 2, 4) R(u16, 4, 16)
#elif VP_G == 3
PM(f32, 1) PM(f32, 2) PM(f32, 3) PM(f32, 4) PM(f32, 5) PM(f32, 8) PM(f32, 7) PM(f64, 2) PM(f64, 4) PM(i32, 8) PM(i64, 3) PM(i64, 4) PM(u16, 8) PM(i16, 16) PM(i8, 16) PM(u8, 13)
RM(f32, 8, 4) RM(f32, 4, 8) RM(f32, 3, 4) RM(i32, 8, 5) RM(i64, 2, 4) RM(i16, 8, 16) RM(u8, 16, 8) RM(f64, 4, 2)
#else
P(f32, 3) P(f32, 4) P(f32, 7) P(f32, 8) P(f64, 2) P(f64, 3) P(i32, 4) P(i32, 3) P(u16, 8) P(i16, 5) P(u8, 16) P(u8, 11) PM(f32, 4) PM(f32, 3) PM(i16, 8) R(f32, 4, 2) R(f32, 2, 4) R(f32, 4, 8) R(i16, 8, 4)
#endif
