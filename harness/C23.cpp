// C23: count_if counts exactly the matching elements
// @unit name=fb defs=VP_G=1
// @unit name=fb2 defs=VP_G=2
// @unit name=fbsz defs=VP_G=2,__OPTIMIZE_SIZE__=1 tier=thorough
// @unit name=std cfg=stdlib defs=VP_G=1
// @unit name=std2 cfg=stdlib defs=VP_G=2
// @unit name=std3 cfg=stdlib defs=VP_G=3
// @unit name=std3sse cfg=stdlib march=x86-64 defs=VP_G=3 tier=thorough
// @unit name=avx3 cfg=stdlib march=sandybridge defs=VP_G=3 tier=thorough
// @unit name=avx1 cfg=stdlib march=sandybridge defs=VP_G=1 tier=thorough
// @bound every content and every threshold of the predicate; every length 0..L (L covers two unrolled chunks plus every epilogue length), every start offset within the alignment of the widest vector for the policies with prologue; element types of 1, 2, 4, 8 bytes; policies and widths as instantiated below
#include "algo.h"
template <class T, auto P, int W> void ci(unsigned L, unsigned offs) {
  static T a[256];
  const unsigned len = length<W>(matching_v<std::remove_const_t<decltype(P)>>, 0, L), off = offs > 1 ? vp_fork(0, offs - 1, "offset") : 0;
  Buf<T> in(len, off, "in");
  const T thr = vp::sym1<T>("threshold");
  for (unsigned i = 0; i < len; ++i) a[i] = in[i];
  const int n = vir::count_if(P, in.begin(), in.end(), [&](const auto& v) { return v > thr; });
  int c = 0; bool ok = true;
  for (unsigned i = 0; i < len; ++i) { c += a[i] > thr; ok &= vp::same<T>(in[i], a[i]); }
  vp_assert(n == c, "number of elements satisfying the predicate"); vp_assert(ok, "the range is not modified");
}
#define CI(NM, T, P, W, L, O) VP(NM, ([] { ci<T, P, W>(L, O); }))
#if VP_G == 1
CI(d_i8, i8, pol::d, 32, 70, 1) CI(d_u16, u16, pol::d, 16, 40, 1) CI(d_i32, i32, pol::d, 8, 26, 1) CI(d_f32, f32, pol::d, 8, 26, 1) CI(d_i64, i64, pol::d, 4, 14, 1) CI(d_f64, f64, pol::d, 4, 14, 1)
CI(s1_i32, i32, pol::s<1>, 1, 5, 1) CI(s2_i32, i32, pol::s<2>, 2, 7, 1) CI(s3_u16, u16, pol::s<3>, 3, 10, 1) CI(s4_f32, f32, pol::s<4>, 4, 14, 1) CI(s5_i32, i32, pol::s<5>, 5, 17, 1) CI(s7_u8, u8, pol::s<7>, 7, 23, 1) CI(s9_i64, i64, pol::s<9>, 9, 28, 1) CI(s13_i16, i16, pol::s<13>, 13, 40, 1) CI(s16_f64, f64, pol::s<16>, 16, 50, 1) CI(s32_i32, i32, pol::s<32>, 32, 80, 1)
#elif VP_G == 2
CI(u2_i32, i32, pol::u2, 8, 42, 1) CI(u3_i16, i16, pol::u3, 16, 112, 1) CI(u4_f64, f64, pol::u4, 4, 40, 1) CI(u5_u32, u32, pol::u5, 8, 90, 1) CI(u2_u8, u8, pol::u2, 32, 140, 1)
CI(s3u2_i32, i32, (pol::su<3, 2>), 3, 21, 1) CI(s4u3_f32, f32, (pol::su<4, 3>), 4, 30, 1) CI(s1u4_i32, i32, (pol::su<1, 4>), 1, 10, 1) CI(s5u2_u16, u16, (pol::su<5, 2>), 5, 26, 1)
CI(m_i32, i32, pol::m, 8, 40, 1) CI(m_f64, f64, pol::m, 4, 24, 1) CI(mu2_i32, i32, pol::mu2, 8, 56, 1) CI(m3_i32, i32, pol::sm<3>, 3, 15, 1) CI(m4u2_u16, u16, (pol::smu<4, 2>), 4, 28, 1)
template <int N> void arr() {
  std::array<int, N> a; vp::sym(a.data(), N, "a"); const int thr = vp::sym1<int>("threshold");
  const int w = vp_fork(0, 1, "variant");
  auto p = [&](const auto& v) { return v == thr; };
  const int n = w == 0 ? vir::count_if(ex::simd, a, p) : std::count_if(ex::simd, a.begin(), a.end(), p);
  int c = 0; for (int i = 0; i < N; ++i) c += a[i] == thr;
  vp_assert(n == c, "range and std:: overloads");
}
VP(arr1, arr<1>) VP(arr7, arr<7>) VP(arr16, arr<16>) VP(arr19, arr<19>)
// long ranges: a repeated symbolic element and threshold, so the count is 0 or the whole length (minus a symbolic last element)
template <class T, auto P> void lng(unsigned n) {
  static T a[66000]; const T x = vp::sym1<T>("x"), y = vp::sym1<T>("y"), thr = vp::sym1<T>("threshold");
  for (unsigned i = 0; i + 1 < n; ++i) a[i] = x;
  a[n - 1] = y;
  const int c = vir::count_if(P, a, a + n, [&](const auto& v) { return v == thr; });
  vp_assert(c == (x == thr ? int(n) - 1 : 0) + (y == thr), "number of elements satisfying the predicate, long range");
}
template <class T> struct P2 { T x, y; };
void st() {
  const unsigned len = vp_fork(0, 19, "length");
  P2<int>* p = static_cast<P2<int>*>(vp_alloc(len * 8, 64, 8, "in")); vp::sym(&p->x, 2 * len, "in");
  const int n = vir::count_if(ex::simd, p, p + len, [](const auto& v) { return v.x > v.y; });
  int c = 0; for (unsigned i = 0; i < len; ++i) c += p[i].x > p[i].y;
  vp_assert(n == c, "structure elements");
}
VP(st, st)
VP(lng_i8_300, ([] { lng<i8, pol::d>(300); })) VP(lng_i8s1, ([] { lng<i8, pol::s<1>>(300); })) VP(lng_u8u2, ([] { lng<u8, pol::u2>(9000); })) VP(lng_u16s1, ([] { lng<u16, pol::s<1>>(66000); }))
#else
CI(a_i8, i8, pol::a, 32, 70, 32) CI(a_u16, u16, pol::a, 16, 40, 16) CI(a_i32, i32, pol::a, 8, 26, 8) CI(a_f32, f32, pol::a, 8, 26, 8) CI(a_i64, i64, pol::a, 4, 14, 4) CI(a_f64, f64, pol::a, 4, 14, 4)
CI(p_i8, i8, pol::p, 32, 70, 32) CI(p_u16, u16, pol::p, 16, 40, 16) CI(p_i32, i32, pol::p, 8, 26, 8) CI(p_f64, f64, pol::p, 4, 14, 4)
CI(au2_i32, i32, pol::au2, 8, 42, 8) CI(pu3_f32, f32, pol::pu3, 8, 58, 8)
CI(sa2_i64, i64, pol::sa<2>, 2, 9, 4) CI(sa3_i32, i32, pol::sa<3>, 3, 12, 8) CI(sa4_f32, f32, pol::sa<4>, 4, 14, 8) CI(sa5_u16, u16, pol::sa<5>, 5, 16, 16) CI(sa12_i32, i32, pol::sa<12>, 12, 40, 16) CI(sp4_i32, i32, pol::sp<4>, 4, 14, 8) CI(sau4_2_f64, f64, (pol::sau<4, 2>), 4, 26, 8)
#endif
