// C11: construction and element access address the right lane
// @unit name=fb1 defs=VP_G=1
// @unit name=fb2 defs=VP_G=2
// @unit name=fb3 defs=VP_G=3
// @unit name=fb4 defs=VP_G=4
// @unit name=iota defs=VP_G=5
// @unit name=iota_std cfg=stdlib defs=VP_G=5
// @unit name=width_sse march=x86-64 defs=VP_G=6
// @unit name=width_avx march=sandybridge defs=VP_G=6
// @unit name=width_avx2 defs=VP_G=6
// @unit name=width_avx512 march=x86-64-v4 defs=VP_G=6
// @unit name=fb1_17 std=gnu++17 march=x86-64 defs=VP_G=1 tier=thorough
// @unit name=fb2_17 std=gnu++17 march=x86-64 defs=VP_G=2 tier=thorough
// @unit name=fb3_17 std=gnu++17 march=x86-64 defs=VP_G=3 tier=thorough
// @unit name=fb4_17 std=gnu++17 march=x86-64 defs=VP_G=4 tier=thorough
// @bound all values and every in-range run-time index; all element types; scalar, native, compatible and fixed_size N (1..64 as instantiated); iota_v in both configurations; widths of native_simd and the default ABI for SSE2, AVX, AVX2 and AVX-512
#include "simdh.h"
#define LANES(COND) ([&] { bool ok = true; for (int i = 0; i < N; ++i) ok &= (COND); return ok; }())
#if VP_G < 5
template <class V> void ctor() {
  using T = typename V::value_type; constexpr int N = V::size();
  const T s = vp::sym1<T>("s");
  { const V x(s); vp_assert(LANES(vp::same<T>(x[i], s)), "broadcast"); }
  { const V x = s; vp_assert(LANES(vp::same<T>(x[i], s)), "implicit broadcast"); }
  { V x(T(1)); x = s; vp_assert(LANES(vp::same<T>(x[i], s)), "assignment of a scalar"); }
  T a[N]; vp::sym(a, N, "a");
  int calls[N] = {};
  const V g([&](auto i) -> T { ++calls[i]; return a[i]; });
  vp_assert(LANES(vp::same<T>(g[i], a[i])), "generator: lane i is gen(i)");
  vp_assert(LANES(calls[i] == 1), "generator called exactly once per lane");
  V h = g; vp_assert(LANES(vp::same<T>(h[i], a[i])), "copy construction");
  V k(s); k = h; vp_assert(LANES(vp::same<T>(k[i], a[i]) && vp::same<T>(h[i], a[i])), "copy assignment");
  V mv(static_cast<V&&>(h)); vp_assert(LANES(vp::same<T>(mv[i], a[i])), "move construction");
  { const V z{}; vp_assert(LANES(vp::same<T>(z[i], T())), "value initialisation"); }
  vp_assert(V::size() == stdx::simd_size_v<T, typename V::abi_type>, "size");
}
template <class V> void access() {
  using T = typename V::value_type; constexpr int N = V::size();
  T a[N]; V x = vp::symv<V>(a, "x"); const V cx = x; const T s = vp::sym1<T>("s");
  size_t j; vp::sym(&j, 1, "index"); vp_assume(j < size_t(N));
  vp_assert(vp::same<T>(cx[j], a[j]), "const x[j]");
  vp_assert(vp::same<T>(x[j], a[j]), "x[j]");
  { V y = x; y[j] = s; vp_assert(LANES(vp::same<T>(y[i], size_t(i) == j ? s : a[i])), "x[j] = s"); vp_assert(LANES(vp::same<T>(x[i], a[i])), "source of the copy unchanged"); }
}
template <class V> void refops() {
  using T = typename V::value_type; constexpr int N = V::size();
  T a[N]; const V x = vp::symv<V>(a, "x"); const T s = vp::sym1<T>("s");
  const int j = vp_fork(0, N - 1, "index");
#define OP(NM, ST, EXP) { V y = x; T e = a[j]; ST; EXP; vp_assert(LANES(vp::same<T>(y[i], i == j ? e : a[i])), NM); }
  OP("x[j] += s", y[j] += s, e += s)
  OP("x[j] -= s", y[j] -= s, e -= s)
  OP("x[j] *= s", y[j] *= s, e *= s)
  OP("++x[j]", ++y[j], ++e)
  OP("--x[j]", --y[j], --e)
  { V y = x; T e = a[j]; const T r = y[j]++; const T f = e++; vp_assert(vp::same<T>(r, f), "value of x[j]++"); vp_assert(LANES(vp::same<T>(y[i], i == j ? e : a[i])), "x[j]++"); }
  { V y = x; T e = a[j]; const T r = y[j]--; const T f = e--; vp_assert(vp::same<T>(r, f), "value of x[j]--"); vp_assert(LANES(vp::same<T>(y[i], i == j ? e : a[i])), "x[j]--"); }
  if constexpr (!vp::is_fp<T>) {
    OP("x[j] &= s", y[j] &= s, e &= s) OP("x[j] |= s", y[j] |= s, e |= s) OP("x[j] ^= s", y[j] ^= s, e ^= s)
    OP("x[j] <<= 1", y[j] <<= 1, e <<= 1) OP("x[j] >>= 1", y[j] >>= 1, e >>= 1)
  }
  { const int k = vp_fork(0, N - 1, "index2"); V y = x; y[j] = y[k]; vp_assert(LANES(vp::same<T>(y[i], a[i == j ? k : i])), "x[j] = x[k]"); }
}
template <class V> void mask() {
  using M = typename V::mask_type; constexpr int N = M::size();
  bool s; vp_symbool(&s, 1, "s");
  { const M m(s); vp_assert(LANES(m[i] == s), "mask broadcast"); }
  bool b[N]; vp_symbool(b, N, "b");
  int calls[N] = {};
  const M m([&](auto i) -> bool { ++calls[i]; return b[i]; });
  vp_assert(LANES(m[i] == b[i]), "mask generator"); vp_assert(LANES(calls[i] == 1), "mask generator called exactly once per lane");
  { const M k = m; vp_assert(LANES(k[i] == b[i]), "mask copy"); }
  { M k(s); k = m; vp_assert(LANES(k[i] == b[i]), "mask assignment"); }
  const int j = vp_fork(0, N - 1, "index");
  { M k = m; k[j] = s; vp_assert(LANES(k[i] == (i == j ? s : b[i])), "m[j] = s"); }
  { M k = m; k[j] |= s; vp_assert(LANES(k[i] == (i == j ? (b[i] | s) : b[i])), "m[j] |= s"); }
  { M k = m; k[j] ^= s; vp_assert(LANES(k[i] == (i == j ? (b[i] ^ s) : b[i])), "m[j] ^= s"); }
  { M k = m; k[j] &= s; vp_assert(LANES(k[i] == (i == j ? (b[i] & s) : b[i])), "m[j] &= s"); }
  { M k = m; k[j] = m[N - 1 - j]; vp_assert(LANES(k[i] == b[i == j ? N - 1 - j : i]), "m[j] = m[l]"); }
  { const M z{}; vp_assert(LANES(z[i] == false), "mask value initialisation"); }
}
#define ALLT(X, A) X(ch, A) X(i8, A) X(u8, A) X(i16, A) X(u16, A) X(i32, A) X(u32, A) X(i64, A) X(u64, A) X(ll, A) X(ull, A) X(f32, A) X(f64, A) X(c16, A) X(c32, A) X(wch, A)
#define MOST(X, A) X(i8, A) X(u8, A) X(i16, A) X(u16, A) X(i32, A) X(u32, A) X(i64, A) X(u64, A) X(f32, A) X(f64, A)
#if VP_G == 1
#define X_(T, A) VPI(ctor, T, A)
#elif VP_G == 2
#define X_(T, A) VPI(access, T, A)
#elif VP_G == 3
#define X_(T, A) VPI(refops, T, A)
#else
#define X_(T, A) VPI(mask, T, A)
#endif
ALLT(X_, s) MOST(X_, c) MOST(X_, f1) MOST(X_, f2) ALLT(X_, f3) MOST(X_, f5) X_(i32, f7) X_(f32, n) X_(f64, n) X_(i32, n) X_(u64, n) X_(f32, f9) X_(i16, f12)
#if VP_G != 3
X_(i8, n) X_(u16, n) X_(u8, f17) X_(f32, f32) VP_WIDE(X_(i8, f64) X_(f32, f33) X_(u16, f130))
#endif
#elif VP_G == 6
// native_simd<T> and its mask fill one register of the target, simd<T> 16 bytes; all lanes and nothing else are transferred
template <class V, int BYTES> void width() {
  using T = typename V::value_type; using M = typename V::mask_type; constexpr int N = BYTES / int(sizeof(T));
  vp_assert(int(V::size()) == N && int(M::size()) == N, "native_simd<T> (or simd<T>) has as many elements as fit into a register");
  if constexpr (int(V::size()) == N) { // (else: already reported)
    T a[N], o[N + 2], p[N + 2]; vp::sym(a, N, "x"); vp::sym(o, N + 2, "memory"); for (int i = 0; i < N + 2; ++i) p[i] = o[i];
    const V x(a, stdx::element_aligned); vp_assert(LANES(vp::same<T>(x[i], a[i])), "loaded lanes");
    x.copy_to(o + 1, stdx::element_aligned); vp_assert(LANES(vp::same<T>(o[i + 1], a[i])) && vp::same<T>(o[0], p[0]) && vp::same<T>(o[N + 1], p[N + 1]), "stored lanes");
  }
}
#ifdef __AVX512F__
constexpr int fbytes = 64, ibytes = 64;
#elif defined __AVX2__
constexpr int fbytes = 32, ibytes = 32;
#elif defined __AVX__
constexpr int fbytes = 32, ibytes = 16;
#else
constexpr int fbytes = 16, ibytes = 16;
#endif
#define W_(T) VP(native_##T, (width<stdx::native_simd<T>, vp::is_fp<T> ? fbytes : ibytes>)) VP(compat_##T, (width<stdx::simd<T>, 16>))
W_(i8) W_(u8) W_(ch) W_(i16) W_(u16) W_(i32) W_(u32) W_(i64) W_(u64) W_(ll) W_(ull) W_(c16) W_(c32) W_(wch) W_(f32) W_(f64)
#else
#include <vir/simd_iota.h>
#include <array>
template <class V> void iota() {
  using T = typename V::value_type; constexpr int N = V::size();
  vp_assert(LANES(vp::same<T>(vir::iota_v<V>[i], T(i))), "iota_v<simd>");
  T a[N]; V x = vp::symv<V>(a, "x"); const V r = x + vir::iota_v<V>; vp_assert(LANES(vp::same<T>(r[i], T(a[i] + T(i)))), "x + iota_v");
  vp_assert(vir::iota_v<T> == T(0), "iota_v<arithmetic>");
  vp_assert(LANES((vir::iota_v<std::array<T, N>>[i] == T(i))), "iota_v<std::array>");
  vp_assert(LANES((vir::iota_v<T[N]>[i] == T(i))), "iota_v<T[N]>");
  static_assert(std::is_same_v<std::remove_cvref_t<decltype(vir::iota_v<T[N]>)>, T[N]>);
}
#define X_(T, A) VPI(iota, T, A)
#define A_(T) X_(T, s) X_(T, n) X_(T, c) X_(T, f1) X_(T, f3) X_(T, f5) X_(T, f16) X_(T, f32)
A_(i8) A_(u8) A_(i16) A_(u16) A_(i32) A_(u32) A_(i64) A_(u64) A_(f32) A_(f64) VP_WIDE(X_(i8, f64) X_(u16, f33) X_(i32, f130) X_(u8, f300) X_(f32, f300))
#endif
