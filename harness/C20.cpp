// C20: for_each visits every element exactly once and writes back
// @unit name=fb defs=VP_G=1
// @unit name=fb2 defs=VP_G=2
// @unit name=fbsz defs=VP_G=1,__OPTIMIZE_SIZE__=1
// @unit name=std cfg=stdlib defs=VP_G=1
// @unit name=std2 cfg=stdlib defs=VP_G=2
// @unit name=std3 cfg=stdlib defs=VP_G=3
// @unit name=std3sz cfg=stdlib defs=VP_G=3,__OPTIMIZE_SIZE__=1
// @unit name=std3sse cfg=stdlib march=x86-64 defs=VP_G=3
// @unit name=avx3 cfg=stdlib march=sandybridge defs=VP_G=3 tier=thorough
// @unit name=avx1 cfg=stdlib march=sandybridge defs=VP_G=1 tier=thorough
// @bound every content; lengths of 70001 with two distinct symbolic elements; every length 0..L (L covers at least two unrolled chunks plus every epilogue length), every start offset within the alignment of the widest vector for the policies with prologue; element types of 1, 2, 4, 8 bytes; policies and widths as instantiated below
#include "algo.h"
#define STR2(x) #x
template <class T> inline auto f(const auto& v) { if constexpr (sizeof(T) == 1) return v + v + T(1); else return v * T(3) + T(1); }
enum Mode { RO, RW, VAL, CONSTRNG };
template <class T, auto P, int W, int U, Mode M> void fe(unsigned LO, unsigned L, unsigned offs) {
  static T a[640], log[640];
  const unsigned len = length<W>(matching_v<std::remove_const_t<decltype(P)>>, LO, L), off = offs > 1 ? vp_fork(0, offs - 1, "offset") : 0;
  Buf<T> b(len, off, "in");
  for (unsigned i = 0; i < len; ++i) a[i] = b[i];
  unsigned n = 0;
  auto see = [&](const auto& v) { for (unsigned i = 0; i < v.size(); ++i) { if (n < 640) log[n] = v[i]; ++n; } };
  if constexpr (M == RO) vir::for_each(P, b.begin(), b.end(), [&](const auto&... v) { (see(v), ...); });
  else if constexpr (M == VAL) vir::for_each(P, b.begin(), b.end(), [&](auto... v) { (see(v), ...); ((v += T(1)), ...); });
  else if constexpr (M == CONSTRNG) vir::for_each(P, std::span<const T>(b.p, len), [&](auto... v) { (see(v), ...); });
  else vir::for_each(P, b.begin(), b.end(), [&](auto&... v) { (see(v), ...); ((v = f<T>(v)), ...); });
  vp_assert(n == len, "number of elements visited");
  bool ok = true, ok2 = true;
  for (unsigned i = 0; i < len; ++i) { ok &= vp::same<T>(log[i], a[i]); ok2 &= vp::same<T>(b[i], M == RW ? (sizeof(T) == 1 ? T(a[i] + a[i] + T(1)) : T(T(a[i] * T(3)) + T(1))) : a[i]); }
  vp_assert(ok, "each element is passed exactly once, in order");
  vp_assert(ok2, M == RW ? "modified values are stored back to their elements" : "elements are not modified");
}
#define FE(NM, T, P, W, U, M, L, O) VP(NM, ([] { fe<T, P, W, U, M>(0, L, O); }))
#define FEL(NM, T, P, W, U, M, LO, L, O) VP(NM, ([] { fe<T, P, W, U, M>(LO, L, O); }))
#define FE3(NM, T, P, W, U, L, O) FE(NM##_ro, T, P, W, U, RO, L, O) FE(NM##_rw, T, P, W, U, RW, L, O) FE(NM##_val, T, P, W, U, VAL, L, O)
#if VP_G == 1 // default and sized
FE3(d_i8, i8, pol::d, 32, 1, 70, 1) FE3(d_u16, u16, pol::d, 16, 1, 40, 1) FE3(d_i32, i32, pol::d, 8, 1, 26, 1) FE3(d_f32, f32, pol::d, 8, 1, 26, 1) FE3(d_i64, i64, pol::d, 4, 1, 14, 1) FE3(d_f64, f64, pol::d, 4, 1, 14, 1)
FE3(s1_i32, i32, pol::s<1>, 1, 1, 5, 1) FE3(s2_i32, i32, pol::s<2>, 2, 1, 7, 1) FE3(s3_u16, u16, pol::s<3>, 3, 1, 10, 1) FE3(s4_f32, f32, pol::s<4>, 4, 1, 14, 1) FE3(s5_i32, i32, pol::s<5>, 5, 1, 17, 1) FE3(s7_u8, u8, pol::s<7>, 7, 1, 23, 1) FE3(s9_i64, i64, pol::s<9>, 9, 1, 28, 1) FE3(s13_i16, i16, pol::s<13>, 13, 1, 40, 1) FE3(s16_f64, f64, pol::s<16>, 16, 1, 50, 1) FE3(s32_i32, i32, pol::s<32>, 32, 1, 80, 1)
#ifdef VIR_DISABLE_STDX_SIMD
FE3(s64_u8, u8, pol::s<64>, 64, 1, 140, 1) FE3(s100_u8, u8, pol::s<100>, 100, 1, 210, 1)
#endif
#elif VP_G == 2 // unrolled, matching, ranges
FE3(u2_i32, i32, pol::u2, 8, 2, 42, 1) FE3(u3_i16, i16, pol::u3, 16, 3, 112, 1) FE3(u4_f64, f64, pol::u4, 4, 4, 40, 1) FE3(u5_u32, u32, pol::u5, 8, 5, 90, 1) FE3(u2_u8, u8, pol::u2, 32, 2, 140, 1)
using S3U2 = int;
FE3(s3u2_i32, i32, (pol::su<3, 2>), 3, 2, 21, 1) FE3(s4u3_f32, f32, (pol::su<4, 3>), 4, 3, 30, 1) FE3(s1u4_i32, i32, (pol::su<1, 4>), 1, 4, 10, 1) FE3(s5u2_u16, u16, (pol::su<5, 2>), 5, 2, 26, 1)
FE3(m_i32, i32, pol::m, 8, 1, 40, 1) FE3(m_f64, f64, pol::m, 4, 1, 24, 1) FE3(mu2_i32, i32, pol::mu2, 8, 2, 56, 1) FE3(m3_i32, i32, pol::sm<3>, 3, 1, 15, 1) FE3(m4u2_u16, u16, (pol::smu<4, 2>), 4, 2, 28, 1) FE3(m1_u8, u8, pol::sm<1>, 1, 1, 6, 1)
FE(c_i32, i32, pol::d, 8, 1, CONSTRNG, 26, 1) FE(c_u2_f32, f32, pol::u2, 8, 2, CONSTRNG, 40, 1) FE(c_s3, u16, pol::s<3>, 3, 1, CONSTRNG, 10, 1)
FE3(p_i32, i32, pol::p, 8, 1, 26, 8) FE3(a_f32, f32, pol::a, 8, 1, 26, 8)
template <class T> struct P3 { T x, y, z; };
template <class T> struct P2 { T x, y; };
struct Mx { int a; short b; float c; };
template <class T, auto P> void st3(unsigned L) { // structure elements
  const unsigned len = vp_fork(0, L, "length");
  using S = P3<T>;
  S* p = static_cast<S*>(vp_alloc(len * sizeof(S), 64, sizeof(T), "in")); vp::sym(&p->x, len * 3, "in"); static S a[64];
  for (unsigned i = 0; i < len; ++i) a[i] = p[i];
  unsigned n = 0; bool seen = true;
  vir::for_each(P, p, p + len, [&](auto&... v) { ([&](auto& w) { for (unsigned i = 0; i < w.size(); ++i, ++n) seen &= n < len && vp::same(T(w.x[i]), a[n].x) && vp::same(T(w.y[i]), a[n].y) && vp::same(T(w.z[i]), a[n].z); auto t = w.x; w.x = w.y; w.y = w.z; w.z = t; }(v), ...); });
  vp_assert(n == len && seen, "each structure is passed exactly once, in order");
  bool ok = true; for (unsigned i = 0; i < len; ++i) ok &= vp::same(p[i].x, a[i].y) && vp::same(p[i].y, a[i].z) && vp::same(p[i].z, a[i].x);
  vp_assert(ok, "modified structures are stored back to their elements");
}
template <class T, auto P> void st2(unsigned L) {
  const unsigned len = vp_fork(0, L, "length");
  using S = P2<T>;
  S* p = static_cast<S*>(vp_alloc(len * sizeof(S), 64, sizeof(T), "in")); vp::sym(&p->x, len * 2, "in"); static S a[64];
  for (unsigned i = 0; i < len; ++i) a[i] = p[i];
  vir::for_each(P, p, p + len, [](auto&... v) { ([](auto& w) { auto t = w.x; w.x = w.y; w.y = t; }(v), ...); });
  bool ok = true; for (unsigned i = 0; i < len; ++i) ok &= vp::same(p[i].x, a[i].y) && vp::same(p[i].y, a[i].x);
  vp_assert(ok, "modified structures are stored back to their elements");
}
VP(st_d, ([] { st3<float, pol::d>(19); })) VP(st_s3, ([] { st3<float, pol::s<3>>(10); })) VP(st_u2, ([] { st3<float, pol::u2>(26); })) VP(st_a, ([] { st3<float, pol::a>(12); })) VP(st_i16, ([] { st3<short, pol::d>(36); })) VP(st_f64, ([] { st3<double, pol::d>(10); }))
VP(st2_d, ([] { st2<float, pol::d>(19); })) VP(st2_u3, ([] { st2<int, pol::u3>(50); })) VP(st2_s5, ([] { st2<long, pol::s<5>>(17); }))
void mx() {
  const unsigned len = vp_fork(0, 19, "length");
  Mx* p = static_cast<Mx*>(vp_alloc(len * sizeof(Mx), 64, 0, "in")); static Mx a[64];
  for (unsigned i = 0; i < len; ++i) { vp::sym(&p[i].a, 1, "a"); vp::sym(&p[i].b, 1, "b"); vp::sym(&p[i].c, 1, "c"); a[i] = p[i]; }
  vir::for_each(ex::simd, p, p + len, [](auto& v) { using vir::get; get<0>(v) += 1; get<1>(v) *= short(2); });
  bool ok = true; for (unsigned i = 0; i < len; ++i) ok &= p[i].a == a[i].a + 1 && p[i].b == short(a[i].b * 2) && vp::same(p[i].c, a[i].c);
  vp_assert(ok, "structure elements with mixed member types");
}
VP(mx, mx)
template <int N> void arr() { // range overload of vir::for_each and the std::for_each overload
  std::array<int, N> r, a; vp::sym(r.data(), N, "in"); a = r;
  const int w = vp_fork(0, 2, "variant");
  if (w == 0) vir::for_each(ex::simd, r, [](auto& v) { v += 1; });
  else if (w == 1) std::for_each(ex::simd, r.begin(), r.end(), [](auto& v) { v += 1; });
  else vir::for_each(ex::simd, r.begin(), r.end(), [](auto&& v) { v += 1; });
  bool ok = true; for (int i = 0; i < N; ++i) ok &= r[i] == (w == 2 ? a[i] : a[i] + 1) || (w == 2 && r[i] == a[i] + 1);
  vp_assert(ok, "std::array, vir:: and std:: overloads");
}
VP(arr0, arr<1>) VP(arr7, arr<7>) VP(arr16, arr<16>) VP(arr19, arr<19>)
// long ranges: two symbolic elements repeated; the visits are counted
template <class T, auto P, bool RW> void lng(unsigned n) {
  static T a[70016]; const T x = vp::sym1<T>("x"), y = vp::sym1<T>("y");
  for (unsigned i = 0; i + 1 < n; ++i) a[i] = x;
  a[n - 1] = y;
  unsigned k = 0;
  if constexpr (RW) vir::for_each(P, a, a + n, [&](auto&... v) { ((k += v.size(), v = v * T(3) + T(1)), ...); });
  else vir::for_each(P, a, a + n, [&](const auto&... v) { ((k += v.size()), ...); });
  vp_assert(k == n, "number of elements visited, long range");
  bool ok = true; const T fx = RW ? T(T(x * T(3)) + T(1)) : x, fy = RW ? T(T(y * T(3)) + T(1)) : y;
  for (unsigned i = 0; i < n; ++i) ok &= vp::same<T>(a[i], i + 1 < n ? fx : fy);
  vp_assert(ok, "values after for_each, long range");
}
VP(lng_s6, ([] { lng<i16, pol::s<6>, true>(70001); })) VP(lng_s6_ro, ([] { lng<i16, pol::s<6>, false>(70001); })) VP(lng_u3, ([] { lng<i32, pol::u3, true>(70001); })) VP(lng_p, ([] { lng<i32, pol::p, true>(70001); }))
#else // prologues with real alignment requirements (libstdc++ simd)
FE3(a_i8, i8, pol::a, 32, 1, 70, 32) FE3(a_u16, u16, pol::a, 16, 1, 40, 16) FE3(a_i32, i32, pol::a, 8, 1, 26, 8) FE3(a_f32, f32, pol::a, 8, 1, 26, 8) FE3(a_i64, i64, pol::a, 4, 1, 14, 4) FE3(a_f64, f64, pol::a, 4, 1, 14, 4)
FE3(p_i8, i8, pol::p, 32, 1, 70, 32) FE3(p_u16, u16, pol::p, 16, 1, 40, 16) FE3(p_i32, i32, pol::p, 8, 1, 26, 8) FE3(p_f64, f64, pol::p, 4, 1, 14, 4)
FE3(au2_i32, i32, pol::au2, 8, 2, 42, 8) FE3(pu3_f32, f32, pol::pu3, 8, 3, 58, 8)
FE3(sa2_i64, i64, pol::sa<2>, 2, 1, 9, 4) FE3(sa3_i32, i32, pol::sa<3>, 3, 1, 12, 8) FE3(sa4_f32, f32, pol::sa<4>, 4, 1, 14, 8) FE3(sa5_u16, u16, pol::sa<5>, 5, 1, 16, 16) FE3(sa12_i32, i32, pol::sa<12>, 12, 1, 40, 16) FE3(sa16_f32, f32, pol::sa<16>, 16, 1, 50, 16) FE3(sp4_i32, i32, pol::sp<4>, 4, 1, 14, 8) FE3(sp16_i16, i16, pol::sp<16>, 16, 1, 40, 16) FE3(sau4_2_f64, f64, (pol::sau<4, 2>), 4, 2, 26, 8)
FEL(plong_i64, i64, pol::p, 4, 1, RW, 499, 505, 4) FEL(plong_f64, f64, pol::p, 4, 1, RO, 499, 503, 4) FEL(plongu_i64, i64, (ex::simd.auto_prologue().unroll_by<4>()), 4, 4, RW, 500, 504, 4)
#endif
