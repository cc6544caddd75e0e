// C10: math functions apply the scalar function to each lane
// @unit name=f32 defs=VP_T=f32
// @unit name=f64 defs=VP_T=f64
// @unit name=f32_17 defs=VP_T=f32 std=gnu++17 march=x86-64 tier=thorough
// @bound all argument bit patterns in all lanes, float and double, ABIs scalar, native, compatible, fixed_size 1, 3, 5; the scalar libm function is an uninterpreted function of its arguments (the claim is that the simd function applies exactly that function to exactly these lanes); integer results outside the representable range excluded
#include "simdh.h"
#define LANES(COND) ([&] { bool ok = true; for (int i = 0; i < N; ++i) ok &= (COND); return ok; }())
using T = VP_T;
#define H1 constexpr int N = V::size(); T a[N]; const V x = vp::symv<V>(a, "x");
#define KEEPX vp_assert(LANES(vp::same<T>(x[i], a[i])), "argument unchanged");
#define F1(NM) template <class V> void t_##NM() { H1 const V r = NM(x); vp_assert(LANES(vp::same<T>(r[i], std::NM(a[i]))), #NM); KEEPX }
#define M1(NM) template <class V> void t_##NM() { H1 const typename V::mask_type r = NM(x); vp_assert(LANES(r[i] == bool(std::NM(a[i]))), #NM); KEEPX }
#define I1(NM, R) template <class V> void t_##NM() { H1 const stdx::fixed_size_simd<R, N> r = NM(x); vp_assert(LANES(r[i] == static_cast<R>(std::NM(a[i]))), #NM); KEEPX }
#define H2 H1 T b[N]; const V y = vp::symv<V>(b, "y"); const T s = vp::sym1<T>("s");
#define KEEPY KEEPX vp_assert(LANES(vp::same<T>(y[i], b[i])), "second argument unchanged");
#define F2(NM) template <class V> void t_##NM() { H2 { const V r = NM(x, y); vp_assert(LANES(vp::same<T>(r[i], std::NM(a[i], b[i]))), #NM); } \
  { const V r = NM(x, s); vp_assert(LANES(vp::same<T>(r[i], std::NM(a[i], s))), #NM "(simd, scalar)"); } { const V r = NM(s, y); vp_assert(LANES(vp::same<T>(r[i], std::NM(s, b[i]))), #NM "(scalar, simd)"); } KEEPY }
#define M2(NM) template <class V> void t_##NM() { H2 { const typename V::mask_type r = NM(x, y); vp_assert(LANES(r[i] == bool(std::NM(a[i], b[i]))), #NM); } \
  { const typename V::mask_type r = NM(x, s); vp_assert(LANES(r[i] == bool(std::NM(a[i], s))), #NM "(simd, scalar)"); } { const typename V::mask_type r = NM(s, y); vp_assert(LANES(r[i] == bool(std::NM(s, b[i]))), #NM "(scalar, simd)"); } KEEPY }
#define F3(NM) template <class V> void t3_##NM() { H2 T c[N]; const V z = vp::symv<V>(c, "z"); const T t = vp::sym1<T>("t"); \
  { const V r = NM(x, y, z); vp_assert(LANES(vp::same<T>(r[i], std::NM(a[i], b[i], c[i]))), #NM "/3"); } \
  { const V r = NM(x, s, t); vp_assert(LANES(vp::same<T>(r[i], std::NM(a[i], s, t))), #NM "/3 vss"); } { const V r = NM(s, y, t); vp_assert(LANES(vp::same<T>(r[i], std::NM(s, b[i], t))), #NM "/3 svs"); } { const V r = NM(s, t, z); vp_assert(LANES(vp::same<T>(r[i], std::NM(s, t, c[i]))), #NM "/3 ssv"); } KEEPY }
F1(erf) F1(erfc) F1(tgamma) F1(lgamma) F1(sqrt) F1(trunc) F1(ceil) F1(floor) F1(round) F1(nearbyint) F1(rint) F1(sin) F1(cos) F1(tan) F1(asin) F1(acos) F1(atan) F1(sinh) F1(cosh) F1(tanh) F1(asinh) F1(acosh) F1(atanh) F1(log) F1(log10) F1(log1p) F1(log2) F1(logb)
M1(isnan) M1(isfinite) M1(isinf) M1(isnormal) M1(signbit) I1(fpclassify, int) I1(lround, long) I1(llround, long long) I1(lrint, long) I1(llrint, long long) I1(ilogb, int)
F2(hypot) F2(pow) F2(fmod) F2(remainder) F2(nextafter) F2(copysign) F2(fdim) F2(fmax) F2(fmin) F2(atan2) M2(isgreater) M2(isgreaterequal) M2(isless) M2(islessequal) M2(islessgreater) M2(isunordered)
F3(hypot) F3(fma)
template <class V> void t_remquo() { H2 stdx::fixed_size_simd<int, N> q(7); const V r = remquo(x, y, &q); int e[N]; vp_assert(LANES(vp::same<T>(r[i], std::remquo(a[i], b[i], &e[i])) && q[i] == e[i]), "remquo"); KEEPY }
template <class V> void t_modf() { H1 V ip(T(7)); const V r = modf(x, &ip); T e[N]; vp_assert(LANES(vp::same<T>(r[i], std::modf(a[i], &e[i])) && vp::same<T>(ip[i], e[i])), "modf"); KEEPX }
template <class V> void t_frexp() { H1 stdx::fixed_size_simd<int, N> q(7); const V r = frexp(x, &q); int e[N]; vp_assert(LANES(vp::same<T>(r[i], std::frexp(a[i], &e[i])) && q[i] == e[i]), "frexp"); KEEPX }
#define EX(NM, I) template <class V> void t_##NM() { H1 using E = stdx::fixed_size_simd<I, N>; I e[N]; const E n = vp::symv<E>(e, "exp"); const V r = NM(x, n); vp_assert(LANES(vp::same<T>(r[i], std::NM(a[i], e[i]))), #NM); KEEPX vp_assert(LANES(n[i] == e[i]), "exponent unchanged"); }
EX(scalbln, long) EX(scalbn, int) EX(ldexp, int)
#define R1(FN) VPI(FN, VP_T, s) VPI(FN, VP_T, n) VPI(FN, VP_T, c) VPI(FN, VP_T, f1) VPI(FN, VP_T, f3) VPI(FN, VP_T, f5)
R1(t_erf) R1(t_erfc) R1(t_tgamma) R1(t_lgamma) R1(t_sqrt) R1(t_trunc) R1(t_ceil) R1(t_floor) R1(t_round) R1(t_nearbyint) R1(t_rint) R1(t_sin) R1(t_cos) R1(t_tan) R1(t_asin) R1(t_acos) R1(t_atan) R1(t_sinh) R1(t_cosh) R1(t_tanh) R1(t_asinh) R1(t_acosh) R1(t_atanh) R1(t_log) R1(t_log10) R1(t_log1p) R1(t_log2) R1(t_logb)
R1(t_isnan) R1(t_isfinite) R1(t_isinf) R1(t_isnormal) R1(t_signbit) R1(t_fpclassify) R1(t_lround) R1(t_llround) R1(t_lrint) R1(t_llrint) R1(t_ilogb)
R1(t_hypot) R1(t_pow) R1(t_fmod) R1(t_remainder) R1(t_nextafter) R1(t_copysign) R1(t_fdim) R1(t_fmax) R1(t_fmin) R1(t_atan2) R1(t_isgreater) R1(t_isgreaterequal) R1(t_isless) R1(t_islessequal) R1(t_islessgreater) R1(t_isunordered)
R1(t3_hypot) R1(t3_fma) R1(t_remquo) R1(t_modf) R1(t_frexp) R1(t_scalbln) R1(t_scalbn) R1(t_ldexp)
