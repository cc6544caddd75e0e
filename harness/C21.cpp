// C21: transform writes op of each input element to the output
// @unit name=fb defs=VP_G=1
// @unit name=fb2 defs=VP_G=2
// @unit name=fbsz defs=VP_G=2,__OPTIMIZE_SIZE__=1 tier=thorough
// @unit name=std cfg=stdlib defs=VP_G=1
// @unit name=std2 cfg=stdlib defs=VP_G=2
// @unit name=std3 cfg=stdlib defs=VP_G=3
// @unit name=std3sz cfg=stdlib defs=VP_G=3,__OPTIMIZE_SIZE__=1 tier=thorough
// @unit name=zip std=gnu++23 defs=VP_G=4
// @unit name=zipstd cfg=stdlib std=gnu++23 defs=VP_G=4
// @unit name=std3sse cfg=stdlib march=x86-64 defs=VP_G=3 tier=thorough
// @unit name=avx3 cfg=stdlib march=sandybridge defs=VP_G=3 tier=thorough
// @unit name=avx1 cfg=stdlib march=sandybridge defs=VP_G=1 tier=thorough
// @bound every content; lengths of 70001 with two distinct symbolic elements; every length 0..L (L covers two unrolled chunks plus every epilogue length), input, second input and output ranges of unequal lengths for the range and zip_view overloads, every start offset of the output within the alignment of the widest vector for the policies with prologue; element types of 1, 2, 4, 8 bytes, input and output of different size; policies and widths as instantiated below
#include "algo.h"
#if VP_G == 4
#include <ranges>
#endif
template <class T> inline auto f1(const auto& v) { if constexpr (sizeof(T) == 1) return v + v + T(1); else return v * T(3) + T(1); }
template <class T> inline T g1(T x) { if constexpr (sizeof(T) == 1) return T(x + x + T(1)); else return T(T(x * T(3)) + T(1)); }
template <class To, class V> auto cv(const V& v) { return vir::stdx::static_simd_cast<vir::simdize<To, int(V::size())>>(v); }
template <class T, auto P, int W> void un(unsigned L, unsigned offs) { // T -> T
  static T a[256], o0[2];
  const unsigned len = length<W>(matching_v<std::remove_const_t<decltype(P)>>, 0, L), off = offs > 1 ? vp_fork(0, offs - 1, "offset") : 0;
  Buf<T> in(len, offs > 1 ? 1 : 0, "in"), out(len, off, "out");
  for (unsigned i = 0; i < len; ++i) a[i] = in[i];
  T* r = vir::transform(P, in.begin(), in.end(), out.begin(), [](const auto& v) { return f1<T>(v); });
  vp_assert(r == out.end(), "returns the end of the output range");
  bool ok = true, ok2 = true;
  for (unsigned i = 0; i < len; ++i) { ok &= vp::same<T>(out[i], g1<T>(a[i])); ok2 &= vp::same<T>(in[i], a[i]); }
  vp_assert(ok, "output element i is op(input element i)"); vp_assert(ok2, "the input is not modified");
}
template <class T, auto P, int W> void ip(unsigned L, unsigned offs) { // in place
  static T a[256];
  const unsigned len = length<W>(matching_v<std::remove_const_t<decltype(P)>>, 0, L), off = offs > 1 ? vp_fork(0, offs - 1, "offset") : 0;
  Buf<T> in(len, off, "in");
  for (unsigned i = 0; i < len; ++i) a[i] = in[i];
  T* r = vir::transform(P, in.begin(), in.end(), in.begin(), [](const auto& v) { return f1<T>(v); });
  vp_assert(r == in.end(), "returns the end of the output range");
  bool ok = true;
  for (unsigned i = 0; i < len; ++i) ok &= vp::same<T>(in[i], g1<T>(a[i]));
  vp_assert(ok, "in place: element i is op(element i)");
}
template <class T, class U, auto P, int W> void cvt(unsigned L, unsigned offs) { // T -> U
  static T a[256];
  const unsigned len = length<W>(matching_v<std::remove_const_t<decltype(P)>>, 0, L), off = offs > 1 ? vp_fork(0, offs - 1, "offset") : 0;
  Buf<T> in(len, 0, "in"); Buf<U> out(len, off, "out");
  for (unsigned i = 0; i < len; ++i) a[i] = in[i];
  U* r = vir::transform(P, in.begin(), in.end(), out.begin(), [](const auto& v) { return cv<U>(v); });
  vp_assert(r == out.end(), "returns the end of the output range");
  bool ok = true, ok2 = true;
  for (unsigned i = 0; i < len; ++i) { ok &= vp::same<U>(out[i], static_cast<U>(a[i])); ok2 &= vp::same<T>(in[i], a[i]); }
  vp_assert(ok, "output element i is op(input element i)"); vp_assert(ok2, "the input is not modified");
}
template <class T, class U, auto P, int W> void bin(unsigned L, unsigned offs) { // T, U -> T
  static T a[256]; static U b[256];
  const unsigned len = length<W>(matching_v<std::remove_const_t<decltype(P)>>, 0, L), off = offs > 1 ? vp_fork(0, offs - 1, "offset") : 0;
  Buf<T> in(len, 0, "in"); Buf<U> in2(len, offs > 1 ? 1 : 0, "in2"); Buf<T> out(len, off, "out");
  for (unsigned i = 0; i < len; ++i) a[i] = in[i], b[i] = in2[i];
  T* r = vir::transform(P, in.begin(), in.end(), in2.begin(), out.begin(), [](const auto& v, const auto& w) { return v - cv<T>(w); });
  vp_assert(r == out.end(), "returns the end of the output range");
  bool ok = true, ok2 = true;
  for (unsigned i = 0; i < len; ++i) { ok &= vp::same<T>(out[i], T(a[i] - static_cast<T>(b[i]))); ok2 &= vp::same<T>(in[i], a[i]) && vp::same<U>(in2[i], b[i]); }
  vp_assert(ok, "output element i is op(element i of first, element i of second input)"); vp_assert(ok2, "the inputs are not modified");
}
#define UN(NM, T, P, W, L, O) VP(un_##NM, ([] { un<T, P, W>(L, O); }))
#define IP(NM, T, P, W, L, O) VP(ip_##NM, ([] { ip<T, P, W>(L, O); }))
#define BI(NM, T, U, P, W, L, O) VP(bin_##NM, ([] { bin<T, U, P, W>(L, O); }))
#define CV(NM, T, U, P, W, L, O) VP(cvt_##NM, ([] { cvt<T, U, P, W>(L, O); }))
#define U3(NM, T, P, W, L, O) UN(NM, T, P, W, L, O) IP(NM, T, P, W, L, O) BI(NM, T, T, P, W, L, O)
#if VP_G == 1
U3(d_i8, i8, pol::d, 32, 70, 1) U3(d_u16, u16, pol::d, 16, 40, 1) U3(d_i32, i32, pol::d, 8, 26, 1) U3(d_f32, f32, pol::d, 8, 26, 1) U3(d_i64, i64, pol::d, 4, 14, 1) U3(d_f64, f64, pol::d, 4, 14, 1)
U3(s1_i32, i32, pol::s<1>, 1, 5, 1) U3(s2_i32, i32, pol::s<2>, 2, 7, 1) U3(s3_u16, u16, pol::s<3>, 3, 10, 1) U3(s4_f32, f32, pol::s<4>, 4, 14, 1) U3(s5_i32, i32, pol::s<5>, 5, 17, 1) U3(s7_u8, u8, pol::s<7>, 7, 23, 1) U3(s9_i64, i64, pol::s<9>, 9, 28, 1) U3(s13_i16, i16, pol::s<13>, 13, 40, 1) U3(s16_f64, f64, pol::s<16>, 16, 50, 1) U3(s32_i32, i32, pol::s<32>, 32, 80, 1)
CV(i16_i32, i16, i32, pol::d, 16, 40, 1) CV(i32_i16, i32, i16, pol::d, 8, 26, 1) CV(u8_i64, u8, i64, pol::s<8>, 8, 26, 1) CV(f64_f32, f64, f32, pol::d, 4, 14, 1) CV(i32_f64, i32, f64, pol::s<4>, 4, 14, 1) CV(i32_u8, i32, u8, pol::s<6>, 6, 20, 1)
BI(i32_i16, i32, i16, pol::d, 16, 40, 1) BI(i16_i32, i16, i32, pol::d, 16, 40, 1) BI(f64_f32, f64, f32, pol::s<4>, 4, 14, 1) BI(i64_u8, i64, u8, pol::s<3>, 3, 11, 1)
#elif VP_G == 2
U3(u2_i32, i32, pol::u2, 8, 42, 1) U3(u3_i16, i16, pol::u3, 16, 112, 1) U3(u4_f64, f64, pol::u4, 4, 40, 1) U3(u5_u32, u32, pol::u5, 8, 90, 1) U3(u2_u8, u8, pol::u2, 32, 140, 1)
U3(s3u2_i32, i32, (pol::su<3, 2>), 3, 21, 1) U3(s4u3_f32, f32, (pol::su<4, 3>), 4, 30, 1) U3(s1u4_i32, i32, (pol::su<1, 4>), 1, 10, 1) U3(s5u2_u16, u16, (pol::su<5, 2>), 5, 26, 1)
U3(m_i32, i32, pol::m, 8, 40, 1) U3(m_f64, f64, pol::m, 4, 24, 1) U3(mu2_i32, i32, pol::mu2, 8, 56, 1) U3(m3_i32, i32, pol::sm<3>, 3, 15, 1) U3(m4u2_u16, u16, (pol::smu<4, 2>), 4, 28, 1)
CV(u3_i16_i32, i16, i32, pol::u3, 16, 100, 1) CV(u2_i32_i16, i32, i16, pol::u2, 8, 40, 1) BI(u2_i32_i16, i32, i16, pol::u2, 16, 70, 1)
U3(p_i32, i32, pol::p, 8, 26, 8) U3(a_f32, f32, pol::a, 8, 26, 8)
template <class T> struct P2 { T x, y; };
template <auto P> void st(unsigned L) { // structures as input and output
  const unsigned len = vp_fork(0, L, "length");
  Buf<float> x(len, 0, "x"), y(len, 1, "y");
  P2<float>* o = static_cast<P2<float>*>(vp_alloc(len * sizeof(P2<float>), 64, 8, "out")); vp::sym(&o->x, 2 * len, "out");
  auto* r = vir::transform(P, x.begin(), x.end(), y.begin(), o, [](const auto& a, const auto& b) { return P2<std::remove_cvref_t<decltype(a)>>{b, a}; });
  bool ok = r == o + len;
  for (unsigned i = 0; i < len; ++i) ok &= vp::same(o[i].x, y[i]) && vp::same(o[i].y, x[i]);
  vp_assert(ok, "structure output");
  Buf<float> z(len, 2, "z");
  float* q = vir::transform(P, o, o + len, z.begin(), [](const auto& v) { return v.x - v.y; });
  ok = q == z.end(); for (unsigned i = 0; i < len; ++i) ok &= vp::same(z[i], y[i] - x[i]);
  vp_assert(ok, "structure input");
}
VP(st_d, ([] { st<pol::d>(19); })) VP(st_u2, ([] { st<pol::u2>(26); })) VP(st_s3, ([] { st<pol::s<3>>(10); }))
template <int N> void arr() { // range and std:: overloads
  std::array<int, N> a, b, o; vp::sym(a.data(), N, "a"); vp::sym(b.data(), N, "b"); vp::sym(o.data(), N, "o");
  const std::array<int, N> a0 = a, b0 = b;
  const int w = vp_fork(0, 3, "variant");
  auto e = [&] { if (w == 0) return vir::transform(ex::simd, a, o, [](auto v) { return v + 1; });
    if (w == 1) return std::transform(ex::simd, a.begin(), a.end(), o.begin(), [](auto v) { return v + 1; });
    if (w == 2) return vir::transform(ex::simd, a, b, o, [](auto v, auto u) { return v - u; });
    return std::transform(ex::simd, a.begin(), a.end(), b.begin(), o.begin(), [](auto v, auto u) { return v - u; }); }();
  bool ok = e == o.end(); for (int i = 0; i < N; ++i) ok &= o[i] == (w < 2 ? a0[i] + 1 : a0[i] - b0[i]) && a[i] == a0[i] && b[i] == b0[i];
  vp_assert(ok, "range and std:: overloads");
}
VP(arr1, arr<1>) VP(arr7, arr<7>) VP(arr16, arr<16>) VP(arr19, arr<19>)
// long ranges: two symbolic elements repeated
template <class T, auto P, bool BIN> void lng(unsigned n) {
  static T a[70016], o[70016]; const T x = vp::sym1<T>("x"), y = vp::sym1<T>("y");
  for (unsigned i = 0; i + 1 < n; ++i) a[i] = x;
  a[n - 1] = y; o[n] = T(5);
  T* r;
  if constexpr (BIN) r = vir::transform(P, a, a + n, a, o, [](const auto& v, const auto& w) { return (v + v) ^ w; });
  else r = vir::transform(P, a, a + n, o, [](const auto& v) { return (v + v) ^ v; });
  vp_assert(r == o + n, "returns the end of the output range, long range");
  bool ok = true; const T fx = T(T(x + x) ^ x), fy = T(T(y + y) ^ y);
  for (unsigned i = 0; i < n; ++i) ok &= a[i] == (i + 1 < n ? x : y) && o[i] == (i + 1 < n ? fx : fy);
  vp_assert(ok && o[n] == T(5), "output element i is op(input element i), long range");
}
VP(lng_s6, ([] { lng<i16, pol::s<6>, false>(70001); })) VP(lng_s6_bin, ([] { lng<i16, pol::s<6>, true>(70001); })) VP(lng_u3, ([] { lng<i32, pol::u3, false>(70001); })) VP(lng_u3_bin, ([] { lng<i32, pol::u3, true>(70001); }))
#elif VP_G == 3 // prologues with real alignment requirements (libstdc++ simd)
UN(a_i8, i8, pol::a, 32, 70, 32) U3(a_u16, u16, pol::a, 16, 40, 16) U3(a_i32, i32, pol::a, 8, 26, 8) U3(a_f32, f32, pol::a, 8, 26, 8) U3(a_i64, i64, pol::a, 4, 14, 4) U3(a_f64, f64, pol::a, 4, 14, 4)
UN(p_i8, i8, pol::p, 32, 70, 32) U3(p_i32, i32, pol::p, 8, 26, 8) UN(p_f64, f64, pol::p, 4, 14, 4)
#if VP_TIER > 1
U3(p_u16, u16, pol::p, 16, 40, 16) U3(sa16_f32, f32, pol::sa<16>, 16, 50, 16)
#endif
U3(au2_i32, i32, pol::au2, 8, 42, 8) U3(pu3_f32, f32, pol::pu3, 8, 58, 8)
U3(sa2_i64, i64, pol::sa<2>, 2, 9, 4) U3(sa3_i32, i32, pol::sa<3>, 3, 12, 8) U3(sa4_f32, f32, pol::sa<4>, 4, 14, 8) U3(sa5_u16, u16, pol::sa<5>, 5, 16, 16) U3(sa12_i32, i32, pol::sa<12>, 12, 40, 16) UN(sa16_i32, i32, pol::sa<16>, 16, 50, 16) UN(sp4_i32, i32, pol::sp<4>, 4, 14, 8) U3(sau4_2_f64, f64, (pol::sau<4, 2>), 4, 26, 8)
CV(a_i16_i32, i16, i32, pol::a, 16, 40, 8) CV(a_i32_i16, i32, i16, pol::a, 8, 26, 16) CV(a_f64_f32, f64, f32, pol::a, 4, 14, 8) BI(a_i32_i16, i32, i16, pol::a, 16, 40, 8)
#elif VP_G == 4
// the ranges of one call need not be equally long: zip ends with its shortest input; the output and the second input only have to be long enough
template <auto P, int W> void zip2(unsigned L) {
  constexpr bool m = matching_v<std::remove_const_t<decltype(P)>>;
  const unsigned len = length<W>(m, 0, L), w = vp_fork(0, 3, "longer"), xa = w == 1 ? 3 : 0, xb = w == 2 ? 9 : 0, xo = w == 3 ? 9 : 0;
  Buf<int> a(len + xa, 0, "a"); Buf<short> b(len + xb, 0, "b"); Buf<int> o(len + xo, 0, "o"); static int o0[256];
  for (unsigned i = 0; i < len + xo; ++i) o0[i] = o[i];
  if (len == 0) return; // (the overload dereferences begin())
  std::span<int> sa(a.p, len + xa), so(o.p, len + xo); std::span<short> sb(b.p, len + xb);
  auto r = vir::transform(P, std::views::zip(sa, sb), so, [](const auto& v) { return v.first - cv<int>(v.second); });
  vp_assert(r == so.begin() + len, "zip of two ranges: returns the end of the output");
  bool ok = true; for (unsigned i = 0; i < len; ++i) ok &= o[i] == a[i] - b[i];
  vp_assert(ok, "zip of two ranges");
  ok = true; for (unsigned i = len; i < len + xo; ++i) ok &= o[i] == o0[i];
  vp_assert(ok, "zip of two ranges: nothing is written past the shortest input");
}
template <auto P, int W> void zip3(unsigned L) {
  constexpr bool m = matching_v<std::remove_const_t<decltype(P)>>;
  const unsigned len = length<W>(m, 1, L), w = vp_fork(0, 4, "longer"), xa = w == 1 ? 3 : 0, xb = w == 2 ? 9 : 0, xc = w == 3 ? 1 : 0, xo = w == 4 ? 9 : 0;
  if (len == 0) return;
  Buf<int> a(len + xa, 0, "a"), b(len + xb, 0, "b"), c(len + xc, 0, "c"), o(len + xo, 0, "o"); static int o0[256];
  for (unsigned i = 0; i < len + xo; ++i) o0[i] = o[i];
  std::span<int> sa(a.p, len + xa), sb(b.p, len + xb), sc(c.p, len + xc), so(o.p, len + xo);
  auto r = vir::transform(P, std::views::zip(sa, sb, sc), so, [](const auto& v) { return (std::get<0>(v) - std::get<1>(v)) ^ std::get<2>(v); });
  vp_assert(r == so.begin() + len, "zip of three ranges: returns the end of the output");
  bool ok = true; for (unsigned i = 0; i < len; ++i) ok &= o[i] == ((a[i] - b[i]) ^ c[i]);
  vp_assert(ok, "zip of three ranges");
  ok = true; for (unsigned i = len; i < len + xo; ++i) ok &= o[i] == o0[i];
  vp_assert(ok, "zip of three ranges: nothing is written past the shortest input");
}
template <auto P> void zip1(unsigned L) {
  const unsigned len = vp_fork(1, L, "length"), xo = 2 * vp_fork(0, 1, "longer");
  Buf<float> a(len, 0, "a"); Buf<float> o(len + xo, 0, "o"); static float o0[256]; for (unsigned i = 0; i < len + xo; ++i) o0[i] = o[i];
  std::span<float> sa(a.p, len), so(o.p, len + xo);
  auto r = vir::transform(P, std::views::zip(sa), so, [](const auto& v) { return -std::get<0>(v); });
  bool ok = r == so.begin() + len; for (unsigned i = 0; i < len; ++i) ok &= vp::same(o[i], -a[i]); for (unsigned i = len; i < len + xo; ++i) ok &= vp::same(o[i], o0[i]);
  vp_assert(ok, "zip of one range");
}
VP(zip2, ([] { zip2<pol::d, 8>(20); })) VP(zip2_u2, ([] { zip2<pol::u2, 8>(40); })) VP(zip2_s3, ([] { zip2<pol::s<3>, 3>(8); })) VP(zip2_a, ([] { zip2<pol::a, 8>(18); })) VP(zip2_m4, ([] { zip2<pol::sm<4>, 4>(12); }))
VP(zip3, ([] { zip3<pol::d, 8>(20); })) VP(zip3_u3, ([] { zip3<pol::su<2, 3>, 2>(14); })) VP(zip1, ([] { zip1<pol::d>(18); }))
// range overloads
template <auto P, int W, class T> void rg(unsigned L) {
  constexpr bool m = matching_v<std::remove_const_t<decltype(P)>>;
  const unsigned len = length<W>(m, 0, L), w = vp_fork(0, 3, "variant"), x = w & 1 ? 0 : W + 1; // w 0,1: unary
  Buf<T> a(len, 0, "a"), b(len + x, 0, "b"), o(len + x, 0, "o"); static T a0[256], b0[256], o0[256];
  for (unsigned i = 0; i < len; ++i) a0[i] = a[i]; for (unsigned i = 0; i < len + x; ++i) b0[i] = b[i], o0[i] = o[i];
  std::span<const T> sa(a.p, len); std::span<T> sb(b.p, len + x), so(o.p, len + x);
  auto r = w < 2 ? vir::transform(P, sa, so, [](const auto& v) { return f1<T>(v); }) : vir::transform(P, sa, sb, so, [](const auto& v, const auto& u) { return v - u; });
  vp_assert(r == so.begin() + len, "range overload: returns the end of the output");
  bool ok = true, ok2 = true, ok3 = true;
  for (unsigned i = 0; i < len; ++i) { ok &= vp::same<T>(o[i], w < 2 ? g1<T>(a0[i]) : T(a0[i] - b0[i])); ok3 &= vp::same<T>(a[i], a0[i]); }
  for (unsigned i = len; i < len + x; ++i) ok2 &= vp::same<T>(o[i], o0[i]);
  for (unsigned i = 0; i < len + x; ++i) ok3 &= vp::same<T>(b[i], b0[i]);
  vp_assert(ok, "range overload: output element i is op(input elements i)"); vp_assert(ok2, "range overload: nothing is written past the length of the first input"); vp_assert(ok3, "the inputs are not modified");
}
VP(rg_d, ([] { rg<pol::d, 8, int>(20); })) VP(rg_u2, ([] { rg<pol::u2, 16, short>(80); })) VP(rg_s5, ([] { rg<pol::s<5>, 5, double>(12); })) VP(rg_m, ([] { rg<pol::m, 8, float>(24); })) VP(rg_a, ([] { rg<pol::a, 4, long>(12); }))
#endif
