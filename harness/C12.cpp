// C12: precondition checks trap exactly on violated preconditions
// @unit name=l3 defs=VP_G=1
// @unit name=l2 defs=VP_G=1,VIR_CHECK_PRECONDITIONS=2
// @unit name=l4 defs=VP_G=1,VIR_CHECK_PRECONDITIONS=4
// @unit name=l5 defs=VP_G=1,VIR_CHECK_PRECONDITIONS=5
// @unit name=l1 defs=VP_G=1,VIR_CHECK_PRECONDITIONS=1
// @unit name=l3_17 defs=VP_G=1 std=gnu++17
// @unit name=ex3 defs=VP_G=2
// @unit name=ex5 defs=VP_G=2,VIR_CHECK_PRECONDITIONS=5
// @unit name=ex3_std defs=VP_G=2 cfg=stdlib
// @unit name=ex1 defs=VP_G=2,VIR_CHECK_PRECONDITIONS=1
// @bound subscripts: every 64-bit index; find_*_set: every mask; assume_matching_size: range lengths 0..37, simd widths 1..16; checking levels 2..5 (trap or abort on violation) and 1 (valid arguments only)
#include "simdh.h"
#ifndef VIR_CHECK_PRECONDITIONS
#error default level missing
#endif
constexpr bool checked = VIR_CHECK_PRECONDITIONS >= 2;
#define LANES(COND) ([&] { bool ok = true; for (int i = 0; i < N; ++i) ok &= (COND); return ok; }())
inline void violated() { if constexpr (checked) vp_expect_trap(); else vp_assume(false); }
#if VP_G == 1
template <class V> void sub() {
  using T = typename V::value_type; constexpr int N = V::size();
  T a[N]; V x = vp::symv<V>(a, "x"); const V cx = x;
  size_t j; vp::sym(&j, 1, "index"); const bool c = vp_fork(0, 1, "const");
  if (j >= size_t(N)) { violated(); vp_opaque(&j); if (c) vp_assert(vp::same<T>(cx[j], a[0]), "read out of range"); else x[j] = T(1); vp_assert(false, "out-of-range subscript returned"); }
  else if (c) vp_assert(vp::same<T>(cx[j], a[j]), "const subscript");
  else { x[j] = T(1); vp_assert(LANES(vp::same<T>(x[i], size_t(i) == j ? T(1) : a[i])), "subscript"); }
}
template <class V> void msub() {
  using M = typename V::mask_type; constexpr int N = M::size();
  bool a[N]; M x = vp::symm<M>(a, "x"); const M cx = x;
  size_t j; vp::sym(&j, 1, "index"); const bool c = vp_fork(0, 1, "const");
  if (j >= size_t(N)) { violated(); vp_opaque(&j); if (c) vp_assert(cx[j] == a[0], "read out of range"); else x[j] = true; vp_assert(false, "out-of-range mask subscript returned"); }
  else if (c) vp_assert(cx[j] == a[j], "const mask subscript");
  else { x[j] = true; vp_assert(LANES(x[i] == (size_t(i) == j ? true : a[i])), "mask subscript"); }
}
template <class V> void find() {
  using M = typename V::mask_type; constexpr int N = M::size();
  bool a[N]; M x = vp::symm<M>(a, "x"); bool any = false; int lo = 0, hi = 0;
  for (int i = 0; i < N; ++i) { any |= a[i]; hi = a[i] ? i : hi; lo = a[N - 1 - i] ? N - 1 - i : lo; }
  const bool f = vp_fork(0, 1, "first/last");
  if (!any) { violated(); vp_opaque(&x); const int r = f ? find_first_set(x) : find_last_set(x); vp_assert(r < -1, "find_*_set(empty mask) returned"); }
  else vp_assert((f ? find_first_set(x) : find_last_set(x)) == (f ? lo : hi), "find_*_set");
}
#define X_(T, A) VPI(sub, T, A) VPI(msub, T, A) VPI(find, T, A)
X_(i8, s) X_(f32, s) X_(f64, s) X_(u16, s) X_(f32, n) X_(f64, n) X_(u16, n) X_(i32, c) X_(u64, c) X_(i8, c) X_(f32, f1) X_(i32, f2) X_(f64, f3) X_(u8, f5) X_(i64, f7) X_(f32, f12) X_(i16, f17)
#else
#include <vir/simd_execution.h>
template <class T, int W> void matching() {
  constexpr unsigned L = 37;
  const unsigned len = vp_fork(0, L, "length"), alg = vp_fork(0, 3, "algorithm");
  T* p = static_cast<T*>(vp_alloc(len * sizeof(T), 64, 0, "in")); T* q = static_cast<T*>(vp_alloc(len * sizeof(T), 64, sizeof(T), "out"));
  vp::sym(p, len, "in"); vp::sym(q, len, "out");
  constexpr auto pol = [] { if constexpr (W == 0) return vir::execution::simd.assume_matching_size(); else return vir::execution::simd.assume_matching_size().template prefer_size<W ? W : 1>(); }();
  const unsigned w = W ? W : stdx::native_simd<T>::size();
  const bool bad = len % w != 0;
  if (bad) violated();
  T sum = 0; int cnt = 0; unsigned seen = 0;
  T e = 0; int ec = 0; for (unsigned i = 0; i < len; ++i) { e = T(e + p[i]); ec += p[i] > T(3); }
  if (alg == 0) vir::for_each(pol, p, p + len, [&](const auto& v) { seen += v.size(); });
  else if (alg == 1) vir::transform(pol, p, p + len, q, [](const auto& v) { return v; });
  else if (alg == 2) sum = vir::reduce(pol, p, p + len, T());
  else cnt = vir::count_if(pol, p, p + len, [](const auto& v) { return v > T(3); });
  if (bad) vp_assert(false, "assume_matching_size with a range size that does not match returned");
  if (alg == 0) vp_assert(seen == len, "for_each");
  if (alg == 1) { bool ok = true; for (unsigned i = 0; i < len; ++i) ok &= vp::same<T>(q[i], p[i]); vp_assert(ok, "transform"); }
  if (alg == 2) vp_assert(sum == e, "reduce");
  if (alg == 3) vp_assert(cnt == ec, "count_if");
}
void m_i32_0() { matching<i32, 0>(); } void m_i32_1() { matching<i32, 1>(); } void m_u16_3() { matching<u16, 3>(); } void m_i64_4() { matching<i64, 4>(); } void m_i32_8() { matching<i32, 8>(); } void m_u32_5() { matching<u32, 5>(); } void m_u8_16() { matching<u8, 16>(); }
VP(m_i32_0, m_i32_0) VP(m_i32_1, m_i32_1) VP(m_u16_3, m_u16_3) VP(m_i64_4, m_i64_4) VP(m_i32_8, m_i32_8) VP(m_u32_5, m_u32_5) VP(m_u8_16, m_u8_16)
#endif
