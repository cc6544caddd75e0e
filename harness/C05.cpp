// C05: loads and stores move exactly N consecutive elements
// @unit name=same defs=VP_G=1
// @unit name=conv_int defs=VP_G=2
// @unit name=conv_fp defs=VP_G=3
// @unit name=mask defs=VP_G=4
// @unit name=whereb defs=VP_G=5
// @unit name=conv_more defs=VP_G=6 tier=thorough
// @bound all memory contents, lane values and masks; the buffer is an object of exactly N elements (masked: of any shorter length L with the mask false from L on) placed at the smallest alignment the flag allows, so any access outside it is a violation; floating-point to integer conversions restricted to the range of the target; instantiated lane/memory types and ABIs
#include "simdh.h"
#define LANES(COND) ([&] { bool ok = true; for (int i = 0; i < N; ++i) ok &= (COND); return ok; }())
template <class T, class U> inline bool cvt_ok(T x) { // scalar conversion T -> U defined?
  if constexpr (vp::is_fp<T> && !vp::is_fp<U>) { const T lo = std::is_signed_v<U> ? T(-100) : T(0); return x >= lo && x <= T(100); }
  else return true;
}
template <class U, class T> inline bool same_as(U r, T x) { return vp::same<U>(r, static_cast<U>(x)); }

template <class V, class U, class Flags> void one(size_t align, Flags flags) {
  using T = typename V::value_type; constexpr int N = V::size();
  U* const mem = static_cast<U*>(vp_alloc(N * sizeof(U), align * 2, align, "mem"));
  vp::sym(mem, N, "memory"); U keep[N];
  for (int i = 0; i < N; ++i) { keep[i] = mem[i]; vp_assume(cvt_ok<U, T>(keep[i])); }
  { const V r(mem, flags); vp_assert(LANES(same_as<T>(r[i], keep[i])), "load constructor"); }
  { V r = V(T(1)); r.copy_from(mem, flags); vp_assert(LANES(same_as<T>(r[i], keep[i])), "copy_from"); }
  { const U* cm = mem; V r = V(T(0)); r.copy_from(cm, flags); vp_assert(LANES(same_as<T>(r[i], keep[i])), "copy_from const"); }
  vp_assert(LANES(vp::same<U>(mem[i], keep[i])), "loads do not write");
  T a[N]; const V x = vp::symv<V>(a, "x"); for (int i = 0; i < N; ++i) vp_assume(cvt_ok<T, U>(a[i]));
  x.copy_to(mem, flags);
  vp_assert(LANES(same_as<U>(mem[i], a[i])), "copy_to"); vp_assert(LANES(vp::same<T>(x[i], a[i])), "copy_to leaves x");
}
template <class V, class U> void ls() { one<V, U>(alignof(U), stdx::element_aligned); }
template <class V, class U> void lsv() { constexpr size_t A = stdx::memory_alignment_v<V, U>; one<V, U>(A, stdx::vector_aligned); one<V, U>(256, stdx::overaligned<256>); }

inline unsigned length(unsigned N) { // quick tier: for wide vectors only some buffer lengths
  if (VP_TIER > 1 || N <= 8) return vp_fork(0, N, "buffer length");
  const unsigned c = vp_fork(0, 4, "buffer length choice"); const unsigned t[5] = {0, 1, N / 2 + 1, N - 1, N}; return t[c];
}
// the buffer holds only L elements, the mask is false from L on
template <class V, class U> void masked() {
  using T = typename V::value_type; using M = typename V::mask_type; constexpr int N = V::size();
  const unsigned L = length(N);
  U* const mem = static_cast<U*>(vp_alloc(L * sizeof(U), alignof(U) * 2, alignof(U), "mem"));
  U keep[N] = {}; if (L) vp::sym(mem, L, "memory"); for (unsigned i = 0; i < L; ++i) { keep[i] = mem[i]; vp_assume(cvt_ok<U, T>(keep[i])); }
  bool k[N]; const M m = vp::symm<M>(k, "mask"); for (int i = L; i < N; ++i) vp_assume(!k[i]);
  T a[N]; const V x = vp::symv<V>(a, "x"); for (int i = 0; i < N; ++i) vp_assume(cvt_ok<T, U>(a[i]));
  { V r = x; where(m, r).copy_from(mem, stdx::element_aligned); vp_assert(LANES(k[i] ? same_as<T>(r[i], keep[i]) : vp::same<T>(r[i], a[i])), "where copy_from"); }
  { const V r = where(m, x).copy_from(mem, stdx::element_aligned); vp_assert(LANES(k[i] ? same_as<T>(r[i], keep[i]) : vp::same<T>(r[i], a[i])), "const where copy_from"); vp_assert(LANES(vp::same<T>(x[i], a[i])), "const where copy_from leaves x"); }
  { bool ok = true; for (unsigned i = 0; i < L; ++i) ok &= vp::same<U>(mem[i], keep[i]); vp_assert(ok, "masked load does not write"); }
  where(m, x).copy_to(mem, stdx::element_aligned);
  { bool ok = true; for (unsigned i = 0; i < L; ++i) ok &= k[i] ? same_as<U>(mem[i], a[i]) : vp::same<U>(mem[i], keep[i]); vp_assert(ok, "where copy_to (const)"); }
  T b[N]; V y = vp::symv<V>(b, "y"); for (int i = 0; i < N; ++i) vp_assume(cvt_ok<T, U>(b[i]));
  where(m, y).copy_to(mem, stdx::element_aligned);
  { bool ok = true; for (unsigned i = 0; i < L; ++i) ok &= k[i] ? same_as<U>(mem[i], b[i]) : vp::same<U>(mem[i], keep[i]); vp_assert(ok, "where copy_to"); }
  vp_assert(LANES(vp::same<T>(y[i], b[i]) && m[i] == k[i]), "copy_to leaves x and mask");
}
template <class M> void mask_ls() {
  constexpr int N = M::size();
  bool* const mem = static_cast<bool*>(vp_alloc(N, 2, 1, "mem")); vp_symbool(mem, N, "memory"); bool keep[N]; for (int i = 0; i < N; ++i) keep[i] = mem[i];
  { const M r(mem, stdx::element_aligned); vp_assert(LANES(r[i] == keep[i]), "mask load constructor"); }
  { M r(false); r.copy_from(mem, stdx::element_aligned); vp_assert(LANES(r[i] == keep[i]), "mask copy_from"); }
  { M r(true); r.copy_from(mem, stdx::vector_aligned_tag{}); vp_assert(LANES(r[i] == keep[i]), "mask copy_from vector_aligned"); }
  vp_assert(LANES(mem[i] == keep[i]), "mask loads do not write");
  bool a[N]; const M x = vp::symm<M>(a, "x"); x.copy_to(mem, stdx::element_aligned); vp_assert(LANES(mem[i] == a[i] && x[i] == a[i]), "mask copy_to");
}
template <class M> void mask_masked() {
  constexpr int N = M::size();
  const unsigned L = length(N);
  bool* const mem = static_cast<bool*>(vp_alloc(L, 2, 1, "mem")); if (L) vp_symbool(mem, L, "memory"); bool keep[N] = {}; for (unsigned i = 0; i < L; ++i) keep[i] = mem[i];
  bool k[N]; const M m = vp::symm<M>(k, "mask"); for (int i = L; i < N; ++i) vp_assume(!k[i]);
  bool a[N]; const M x = vp::symm<M>(a, "x");
  { const M r(mem, m, stdx::element_aligned); vp_assert(LANES(r[i] == (k[i] ? keep[i] : false)), "masked mask load constructor"); }
  { M r = x; where(m, r).copy_from(mem, stdx::element_aligned); vp_assert(LANES(r[i] == (k[i] ? keep[i] : a[i])), "where(mask) copy_from"); }
  where(m, x).copy_to(mem, stdx::element_aligned);
  { bool ok = true; for (unsigned i = 0; i < L; ++i) ok &= mem[i] == (k[i] ? a[i] : keep[i]); vp_assert(ok, "where(mask) copy_to"); }
}
template <class T, class U> void whereb() {
  using stdx::where;
  const unsigned L = vp_fork(0, 1, "buffer length"); const bool k = vp::sym1<bool>("k"); vp_assume(L == 1 || !k);
  U* const mem = static_cast<U*>(vp_alloc(L * sizeof(U), alignof(U) * 2, alignof(U), "mem")); U keep = U(); if (L) { vp::sym(mem, 1, "memory"); keep = mem[0]; }
  vp_assume(cvt_ok<U, T>(keep)); const T a = vp::sym1<T>("x"); vp_assume(cvt_ok<T, U>(a));
  { T r = a; where(k, r).copy_from(mem, stdx::element_aligned); vp_assert(k ? same_as<T>(r, keep) : vp::same<T>(r, a), "where(bool) copy_from"); }
  { const T r = where(k, a).copy_from(mem, stdx::element_aligned); vp_assert(k ? same_as<T>(r, keep) : vp::same<T>(r, a), "const where(bool) copy_from"); }
  where(k, a).copy_to(mem, stdx::element_aligned);
  if (L) vp_assert(k ? same_as<U>(mem[0], a) : vp::same<U>(mem[0], keep), "where(bool) copy_to");
}
#define LS(T, U, A) VP(ls_##T##_##U##_##A, ls<stdx::simd<T, ab::A<T>>, U>)
#define LSV(T, U, A) VP(lsv_##T##_##U##_##A, lsv<stdx::simd<T, ab::A<T>>, U>)
#define MK(T, U, A) VP(masked_##T##_##U##_##A, masked<stdx::simd<T, ab::A<T>>, U>)
#define ALL3(T, U, A) LS(T, U, A) LSV(T, U, A) MK(T, U, A)
#define ABIS(T, U) ALL3(T, U, s) ALL3(T, U, n) ALL3(T, U, f1) ALL3(T, U, f2) ALL3(T, U, f3) ALL3(T, U, f5) ALL3(T, U, f12)
#define FEW(T, U) ALL3(T, U, s) ALL3(T, U, n) ALL3(T, U, f3) ALL3(T, U, f7)
#if VP_G == 1
ABIS(i8, i8) ABIS(u8, u8) ABIS(ch, ch) ABIS(i16, i16) ABIS(u16, u16) ABIS(i32, i32) ABIS(u32, u32) ABIS(i64, i64) ABIS(u64, u64) ABIS(f32, f32) ABIS(f64, f64)
ALL3(f32, f32, c) ALL3(f32, f32, f17) ALL3(f32, f32, f32) ALL3(f64, f64, f17) ALL3(i32, i32, f31) ALL3(i8, i8, f32) ALL3(c16, c16, f5) ALL3(c32, c32, f5) ALL3(wch, wch, f5) ALL3(ll, ll, f3) ALL3(ull, ull, f3)
VP_WIDE(ALL3(u8, u8, f64) ALL3(f32, f32, f33))
#elif VP_G == 2
FEW(i8, i32) FEW(i8, u16) FEW(u8, i64) FEW(i16, i8) FEW(i16, u64) FEW(u16, i32) FEW(u16, u8) FEW(i32, i8) FEW(i32, u8) FEW(i32, i16) FEW(i32, u32) FEW(i32, i64) FEW(u32, i32) FEW(u32, u16) FEW(i64, i32) FEW(i64, u8) FEW(u64, i64) FEW(u64, u32) FEW(ch, i32) VP_WIDE(ALL3(i8, i16, f64) ALL3(i32, i8, f40))
#elif VP_G == 3
FEW(f32, i8) FEW(f32, u16) FEW(f32, i32) FEW(f32, u32) FEW(f32, i64) FEW(f32, f64) FEW(f64, f32) FEW(f64, i32) FEW(f64, u64) FEW(f64, u8) FEW(i32, f32) FEW(i32, f64) FEW(u8, f32) FEW(i64, f64) FEW(u64, f64) FEW(i16, f32)
#elif VP_G == 4
#define K(T, A) VP(mask_ls_##T##_##A, mask_ls<stdx::simd_mask<T, ab::A<T>>>) VP(mask_masked_##T##_##A, mask_masked<stdx::simd_mask<T, ab::A<T>>>)
#define KK(T) K(T, s) K(T, n) K(T, c) K(T, f1) K(T, f2) K(T, f3) K(T, f5) K(T, f8) K(T, f12) K(T, f17)
KK(f32) KK(f64) KK(i8) KK(u16) KK(i32) KK(u64) K(f32, f32) VP_WIDE(K(i8, f64) K(f32, f33) K(u16, f65) K(u8, f300))
#elif VP_G == 5
#define B(T, U) VP(whereb_##T##_##U, whereb<T, U>)
#define B1(T) B(T, i8) B(T, u8) B(T, i16) B(T, i32) B(T, u32) B(T, i64) B(T, u64) B(T, f32) B(T, f64)
B1(i8) B1(u16) B1(i32) B1(u64) B1(f32) B1(f64)
#else
#define ALLU(T) FEW(T, i8) FEW(T, u8) FEW(T, i16) FEW(T, u16) FEW(T, i32) FEW(T, u32) FEW(T, i64) FEW(T, u64) FEW(T, f32) FEW(T, f64)
ALLU(i8) ALLU(u16) ALLU(i32) ALLU(f32) ALLU(u64)
#endif
