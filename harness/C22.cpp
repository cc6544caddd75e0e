// C22: transform_reduce and reduce combine each element exactly once
// @unit name=fb defs=VP_G=1
// @unit name=fb2 defs=VP_G=2
// @unit name=std cfg=stdlib defs=VP_G=1
// @unit name=std2 cfg=stdlib defs=VP_G=2
// @unit name=std3 cfg=stdlib defs=VP_G=3
// @unit name=std3sse cfg=stdlib march=x86-64 defs=VP_G=3 tier=thorough
// @unit name=avx3 cfg=stdlib march=sandybridge defs=VP_G=3 tier=thorough
// @unit name=avx1 cfg=stdlib march=sandybridge defs=VP_G=1 tier=thorough
// @bound every content and initial value; lengths around 70000 with two distinct symbolic elements; every length 0..L (L covers three unrolled chunks plus every epilogue length), every start offset within the alignment of the widest vector for the policies with prologue; integer element types of 1, 2, 4, 8 bytes with +, * and ^ (exactly associative and commutative), floating-point with the bitwise ^ of the representation; policies and widths as instantiated below
#include "algo.h"
#include <vir/simd_float_ops.h>
enum Form { RED, TR1, TR2, INNER, XORF, MUL };
template <class T> T xorf(T a, T b) { auto x = vp::bits(a) ^ vp::bits(b); T r; __builtin_memcpy(&r, &x, sizeof(T)); return r; }
struct XorF { template <class V> auto operator()(const V& a, const V& b) const { if constexpr (std::is_floating_point_v<V>) return xorf(a, b); else { using namespace vir::simd_float_ops; return a ^ b; } } };
template <class T, auto P, int W, Form F> void tr(unsigned L, unsigned offs) {
  static T a[256], b[256];
  const unsigned len = length<W>(matching_v<std::remove_const_t<decltype(P)>>, 0, L), off = offs > 1 ? vp_fork(0, offs - 1, "offset") : 0;
  Buf<T> in(len, off, "in"), in2(F == TR2 || F == INNER ? len : 0, offs > 1 ? 1 : 0, "in2");
  const T init = vp::sym1<T>("init");
  for (unsigned i = 0; i < len; ++i) { a[i] = in[i]; if (F == TR2 || F == INNER) b[i] = in2[i]; }
  T r, e = init;
  if constexpr (F == RED) { r = vir::reduce(P, in.begin(), in.end(), init); for (unsigned i = 0; i < len; ++i) e = T(e + a[i]); }
  else if constexpr (F == TR1) { r = vir::transform_reduce(P, in.begin(), in.end(), init, std::plus<>(), [](const auto& v) { if constexpr (sizeof(T) == 1) return v + v + T(1); else return v * T(3) + T(1); }); for (unsigned i = 0; i < len; ++i) e = T(e + T(sizeof(T) == 1 ? a[i] + a[i] : a[i] * T(3)) + T(1)); }
  else if constexpr (F == TR2) { r = vir::transform_reduce(P, in.begin(), in.end(), in2.begin(), init, std::bit_xor<>(), [](const auto& v, const auto& w) { return v - w; }); for (unsigned i = 0; i < len; ++i) e = T(e ^ T(a[i] - b[i])); }
  else if constexpr (F == INNER) { r = vir::transform_reduce(P, in.begin(), in.end(), in2.begin(), init); for (unsigned i = 0; i < len; ++i) e = T(e + T(a[i] * b[i])); }
  else if constexpr (F == MUL) { r = vir::reduce(P, in.begin(), in.end(), init, std::multiplies<>()); for (unsigned i = 0; i < len; ++i) e = T(e * a[i]); }
  else { r = vir::reduce(P, in.begin(), in.end(), init, XorF()); for (unsigned i = 0; i < len; ++i) e = xorf(e, a[i]); }
  vp_assert(F == XORF ? vp::bits(r) == vp::bits(e) : r == e, "generalised sum of init and every element");
  bool ok = true; for (unsigned i = 0; i < len; ++i) ok &= vp::bits(in[i]) == vp::bits(a[i]) && (!(F == TR2 || F == INNER) || vp::bits(in2[i]) == vp::bits(b[i]));
  vp_assert(ok, "the ranges are not modified");
}
#define TR(NM, T, P, W, F, L, O) VP(NM, ([] { tr<T, P, W, F>(L, O); }))
#define T4(NM, T, P, W, L, O) TR(NM##_red, T, P, W, RED, L, O) TR(NM##_tr1, T, P, W, TR1, L, O) TR(NM##_tr2, T, P, W, TR2, L, O)
#define TI(NM, T, P, W, L, O) TR(NM##_inner, T, P, W, INNER, L, O)
#define TX(NM, T, P, W, L, O) TR(NM##_xor, T, P, W, XORF, L, O)
#define TM(NM, T, P, W, L, O) TR(NM##_mul, T, P, W, MUL, L, O)
#if VP_G == 1
T4(d_i8, i8, pol::d, 32, 100, 1) T4(d_u16, u16, pol::d, 16, 50, 1) T4(d_i32, i32, pol::d, 8, 34, 1) T4(d_i64, i64, pol::d, 4, 18, 1) TX(d_f32, f32, pol::d, 8, 34, 1) TX(d_f64, f64, pol::d, 4, 18, 1) TI(d_i32, i32, pol::d, 8, 26, 1) TM(d_u32, u32, pol::d, 8, 26, 1)
T4(s1_i32, i32, pol::s<1>, 1, 5, 1) T4(s2_i32, i32, pol::s<2>, 2, 9, 1) T4(s3_u16, u16, pol::s<3>, 3, 13, 1) T4(s4_u32, u32, pol::s<4>, 4, 18, 1) T4(s5_i32, i32, pol::s<5>, 5, 22, 1) T4(s6_i32, i32, pol::s<6>, 6, 26, 1) T4(s7_u8, u8, pol::s<7>, 7, 30, 1) T4(s9_i64, i64, pol::s<9>, 9, 37, 1) T4(s12_i32, i32, pol::s<12>, 12, 50, 1) T4(s13_i16, i16, pol::s<13>, 13, 53, 1) TX(s3_f32, f32, pol::s<3>, 3, 13, 1) 
#ifdef VIR_DISABLE_STDX_SIMD // (libstdc++ fixed_size of several registers has no bit operators)
TX(s16_f64, f64, pol::s<16>, 16, 50, 1)
#endif
T4(s32_i32, i32, pol::s<32>, 32, 100, 1)
#elif VP_G == 2
T4(u2_i32, i32, pol::u2, 8, 58, 1) T4(u3_i16, i16, pol::u3, 16, 160, 1) T4(u4_i64, i64, pol::u4, 4, 56, 1) T4(u5_u32, u32, pol::u5, 8, 130, 1) T4(u2_u8, u8, pol::u2, 32, 210, 1)
T4(s3u2_i32, i32, (pol::su<3, 2>), 3, 28, 1) T4(s4u3_u32, u32, (pol::su<4, 3>), 4, 42, 1) T4(s1u4_i32, i32, (pol::su<1, 4>), 1, 14, 1) T4(s5u2_u16, u16, (pol::su<5, 2>), 5, 36, 1) T4(s2u6_i32, i32, (pol::su<2, 6>), 2, 40, 1) T4(s2u7_i32, i32, (pol::su<2, 7>), 2, 46, 1) T4(s4u8_i32, i32, (pol::su<4, 8>), 4, 102, 1)
T4(m_i32, i32, pol::m, 8, 40, 1) T4(m_i64, i64, pol::m, 4, 24, 1) T4(mu2_i32, i32, pol::mu2, 8, 56, 1) T4(m3_i32, i32, pol::sm<3>, 3, 15, 1) T4(m4u2_u16, u16, (pol::smu<4, 2>), 4, 36, 1)
TI(u2_i32, i32, pol::u2, 8, 50, 1) TM(u3_i32, u32, pol::u3, 8, 60, 1)
template <class T> struct P2 { T x, y; };
void st() {
  const unsigned len = vp_fork(0, 27, "length");
  P2<int>* p = static_cast<P2<int>*>(vp_alloc(len * 8, 64, 8, "in")); vp::sym(&p->x, 2 * len, "in");
  const int init = vp::sym1<int>("init");
  const int r = vir::transform_reduce(ex::simd, p, p + len, init, std::plus<>(), [](const auto& v) { return v.x - v.y; });
  int e = init; for (unsigned i = 0; i < len; ++i) e += p[i].x - p[i].y;
  vp_assert(r == e, "structure elements");
}
VP(st, st)
void wide() { // accumulation type wider than the elements
  const unsigned len = vp_fork(0, 20, "length");
  Buf<i16> in(len, 0, "in"); const int init = vp::sym1<int>("init");
  const int r = vir::transform_reduce(pol::s<8>, in.begin(), in.end(), init, std::plus<>(), [](const auto& v) { return vir::stdx::static_simd_cast<vir::simdize<int, int(std::remove_cvref_t<decltype(v)>::size())>>(v); });
  int e = init; for (unsigned i = 0; i < len; ++i) e += in[i];
  vp_assert(r == e, "wider accumulator");
}
VP(wide, wide)
template <int N> void arr() { // every overload
  std::array<int, N> a, b; vp::sym(a.data(), N, "a"); vp::sym(b.data(), N, "b"); const int init = vp::sym1<int>("init");
  const int w = vp_fork(0, 15, "variant");
  auto f = [](const auto& x) { return x + 7; }; auto g = [](const auto& x, const auto& y) { return x - y; };
  int r = 0, e = 0;
  auto sum = [&](int s) { for (int x : a) s += x; return s; }; auto xr = [&](int s) { for (int x : a) s ^= x; return s; };
  auto t1 = [&](int s) { for (int x : a) s += x + 7; return s; }; auto t2 = [&](int s) { for (int i = 0; i < N; ++i) s += a[i] - b[i]; return s; }; auto inner = [&](int s) { for (int i = 0; i < N; ++i) s += a[i] * b[i]; return s; };
  switch (w) {
    case 0: r = vir::reduce(ex::simd, a.begin(), a.end()); e = sum(0); break;
    case 1: r = vir::reduce(ex::simd, a); e = sum(0); break;
    case 2: r = vir::reduce(ex::simd, a, init); e = sum(init); break;
    case 3: r = vir::reduce(ex::simd, a, init, std::bit_xor<>()); e = xr(init); break;
    case 4: r = std::reduce(ex::simd, a.begin(), a.end()); e = sum(0); break;
    case 5: r = std::reduce(ex::simd, a.begin(), a.end(), init); e = sum(init); break;
    case 6: r = std::reduce(ex::simd, a.begin(), a.end(), init, std::bit_xor<>()); e = xr(init); break;
    case 7: r = vir::transform_reduce(ex::simd, a, init, std::plus<>(), f); e = t1(init); break;
    case 8: r = vir::transform_reduce(ex::simd, a, b, init); e = inner(init); break;
    case 9: r = vir::transform_reduce(ex::simd, a, b, init, std::plus<>(), g); e = t2(init); break;
    case 10: r = std::transform_reduce(ex::simd, a.begin(), a.end(), b.begin(), init); e = inner(init); break;
    case 11: r = std::transform_reduce(ex::simd, a.begin(), a.end(), b.begin(), init, std::plus<>(), g); e = t2(init); break;
    case 12: r = std::transform_reduce(ex::simd, a.begin(), a.end(), init, std::plus<>(), f); e = t1(init); break;
    case 13: r = vir::reduce(ex::simd, a.begin(), a.end(), init, std::bit_xor<>()); e = xr(init); break;
    case 14: r = vir::reduce(ex::simd, std::span<const int>(a.data(), size_t(N)), init); e = sum(init); break;
    default: r = vir::transform_reduce(ex::simd, a.begin(), a.end(), b.begin(), init); e = inner(init); break;
  }
  vp_assert(r == e, "overloads of reduce and transform_reduce");
}
VP(arr1, arr<1>) VP(arr7, arr<7>) VP(arr16, arr<16>) VP(arr19, arr<19>)
// long ranges: two symbolic elements repeated
template <class T, auto P, bool BIN> void lng(unsigned n) {
  static T a[70016]; const T x = vp::sym1<T>("x"), y = vp::sym1<T>("y"), init = vp::sym1<T>("init");
  for (unsigned i = 0; i + 1 < n; ++i) a[i] = x;
  a[n - 1] = y;
  T r;
  if constexpr (BIN) r = vir::transform_reduce(P, a, a + n, a, init, std::bit_xor<>(), [](const auto& v, const auto& w) { return v + w; });
  else r = vir::reduce(P, a, a + n, init, std::bit_xor<>());
  const T fx = BIN ? T(x + x) : x, fy = BIN ? T(y + y) : y;
  vp_assert(r == T(init ^ fy ^ ((n - 1) & 1 ? fx : T(0))), "generalised sum of init and every element, long range");
}
VP(lng_s6, ([] { lng<i16, pol::s<6>, false>(70001); })) VP(lng_s6b, ([] { lng<i16, pol::s<6>, false>(70000); })) VP(lng_s6_bin, ([] { lng<i16, pol::s<6>, true>(70000); })) VP(lng_u3, ([] { lng<i32, pol::u3, false>(70000); })) VP(lng_s7u2, ([] { lng<i32, (pol::su<7, 2>), false>(69998); }))
template <class T, auto P> void lngc(unsigned n) { // each element contributes 1
  static T a[70016]; const T init = vp::sym1<T>("init"); vp::sym(a, 1, "x");
  const T r = vir::transform_reduce(P, a, a + n, init, std::plus<>(), [](const auto& v) { return (v ^ v) + T(1); });
  const T r2 = vir::transform_reduce(P, a, a + n, a, init, std::plus<>(), [](const auto& v, const auto& w) { return (v ^ w) + T(1); });
  vp_assert(r == T(init + T(n)) && r2 == r, "every element contributes exactly once, long range");
}
VP(lngc_s6, ([] { lngc<i32, pol::s<6>>(70001); })) VP(lngc_d, ([] { lngc<i32, pol::d>(70001); })) VP(lngc_u3, ([] { lngc<u16, pol::u3>(70001); })) VP(lngc_s7u2, ([] { lngc<i32, (pol::su<7, 2>)>(70001); })) VP(lngc_p, ([] { lngc<i32, pol::p>(70001); }))
#else
T4(a_i8, i8, pol::a, 32, 70, 32) T4(a_u16, u16, pol::a, 16, 40, 16) T4(a_i32, i32, pol::a, 8, 26, 8) T4(a_i64, i64, pol::a, 4, 14, 4) TX(a_f32, f32, pol::a, 8, 26, 8) TX(a_f64, f64, pol::a, 4, 14, 4)
TR(p_i8_red, i8, pol::p, 32, RED, 70, 32) TR(p_u16_red, u16, pol::p, 16, RED, 40, 16) T4(p_i32, i32, pol::p, 8, 26, 8) TX(p_f64, f64, pol::p, 4, 14, 4)
T4(au2_i32, i32, pol::au2, 8, 50, 8) TX(pu3_f32, f32, pol::pu3, 8, 80, 8)
T4(sa2_i64, i64, pol::sa<2>, 2, 9, 4) T4(sa3_i32, i32, pol::sa<3>, 3, 12, 8) T4(sa4_u32, u32, pol::sa<4>, 4, 14, 8) T4(sa5_u16, u16, pol::sa<5>, 5, 16, 16) T4(sa12_i32, i32, pol::sa<12>, 12, 40, 16) TR(sa16_red, i32, pol::sa<16>, 16, RED, 50, 16) T4(sp4_i32, i32, pol::sp<4>, 4, 14, 8) T4(sau4_2_i64, i64, (pol::sau<4, 2>), 4, 30, 8)
TI(a_i32, i32, pol::a, 8, 26, 8)
#endif
