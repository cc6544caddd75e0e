// C18: simdize loads and stores structures exactly (AoS <-> SoA)
// @unit name=fb_t1 defs=VP_G=1
// @unit name=fb_t3 defs=VP_G=3
// @unit name=fb_t4 defs=VP_G=4
// @unit name=fb_t5 defs=VP_G=5
// @unit name=fb_n defs=VP_G=2
// @unit name=std_t1 cfg=stdlib defs=VP_G=1
// @unit name=std_t3 cfg=stdlib defs=VP_G=3
// @unit name=std_t4 cfg=stdlib defs=VP_G=4
// @unit name=std_t5 cfg=stdlib defs=VP_G=5
// @unit name=std_n cfg=stdlib defs=VP_G=2
// @unit name=avx_t1 cfg=stdlib march=sandybridge defs=VP_G=1
// @unit name=fbavx_t1 march=sandybridge defs=VP_G=1 tier=thorough
// @unit name=avx_n cfg=stdlib march=sandybridge defs=VP_G=2
// @unit name=fbavx_n march=sandybridge defs=VP_G=2 tier=thorough
// @unit name=avx_t3 cfg=stdlib march=sandybridge defs=VP_G=3
// @unit name=fbavx_t3 march=sandybridge defs=VP_G=3 tier=thorough
// @unit name=avx_t4 cfg=stdlib march=sandybridge defs=VP_G=4
// @unit name=fbavx_t4 march=sandybridge defs=VP_G=4 tier=thorough
// @unit name=avx_t5 cfg=stdlib march=sandybridge defs=VP_G=5
// @unit name=fbavx_t5 march=sandybridge defs=VP_G=5 tier=thorough
// @unit name=sse_t1 cfg=stdlib march=x86-64 defs=VP_G=1 tier=thorough
// @unit name=sse_t3 cfg=stdlib march=x86-64 defs=VP_G=3 tier=thorough
// @unit name=sse_t4 cfg=stdlib march=x86-64 defs=VP_G=4 tier=thorough
// @unit name=sse_t5 cfg=stdlib march=x86-64 defs=VP_G=5 tier=thorough
// @unit name=fbsse_t1 march=x86-64 defs=VP_G=1 tier=thorough
// @unit name=fbsse_t3 march=x86-64 defs=VP_G=3 tier=thorough
// @unit name=fbsse_t4 march=x86-64 defs=VP_G=4 tier=thorough
// @unit name=fbsse_t5 march=x86-64 defs=VP_G=5 tier=thorough
// @unit name=sse_n cfg=stdlib march=x86-64 defs=VP_G=2 tier=thorough
// @bound every member value of every element; structure types and widths N as instantiated below (one to seven leaf members of equal or different size, padding, arrays, nesting, std::pair, std::tuple; N = 1..17 and the default width); loads from and stores to objects of exactly N structures
#include "simdh.h"
#include <vir/simdize.h>
#include <array>
#include <tuple>
template <class T> struct P1 { T x; };
template <class T> struct P2 { T x, y; };
template <class T> struct P3 { T x, y, z; };
template <class T> struct P4 { T x, y, z, w; };
template <class T> struct P5 { T a, b, c, d, e; };
template <class T> struct P7 { T a, b, c, d, e, f, g; };
template <class T, class U> struct PQ { T x; U y; };
template <class T, class U, class W> struct PQR { T x; U y; W z; };
template <class T, std::size_t N> struct PA { T x[N]; };
template <class T> struct Ln { P2<T> a, b; };
template <class T> struct Wr { P2<T> a; };
struct S1 { int a; };
struct S2 { int a; double b; };
struct S3 { signed char a; int b; short c; };
struct S4 { float x, y, z; int t; };
struct S6 { double a; float b; long c; short d; unsigned char e; int f; };
struct SN { S2 p; short q; S1 r; };
struct SA { P2<float> p; double q; };
// leaf access in declaration order, for the structure (scalar = true) and for its simdized form
template <class S> struct Acc;
#define ACC_T(SIG, TYPE, ...) template <SIG> struct Acc<TYPE> { template <class V, class F> static void each(V& s, F f) { __VA_ARGS__ } };
#define COMMA ,
ACC_T(class T, P1<T>, f(s.x);) ACC_T(class T, P2<T>, f(s.x); f(s.y);) ACC_T(class T, P3<T>, f(s.x); f(s.y); f(s.z);) ACC_T(class T, P4<T>, f(s.x); f(s.y); f(s.z); f(s.w);)
ACC_T(class T, P5<T>, f(s.a); f(s.b); f(s.c); f(s.d); f(s.e);) ACC_T(class T, P7<T>, f(s.a); f(s.b); f(s.c); f(s.d); f(s.e); f(s.f); f(s.g);)
ACC_T(class T COMMA class U, PQ<T COMMA U>, f(s.x); f(s.y);) ACC_T(class T COMMA class U COMMA class W, PQR<T COMMA U COMMA W>, f(s.x); f(s.y); f(s.z);)
ACC_T(class T COMMA std::size_t N, PA<T COMMA N>, for (unsigned i = 0; i < N; ++i) f(s.x[i]);)
ACC_T(class T, Ln<T>, if constexpr (!requires { s.a; }) { using vir::get; auto& a = get<0>(s); auto& b = get<1>(s); f(a.x); f(a.y); f(b.x); f(b.y); } else { f(s.a.x); f(s.a.y); f(s.b.x); f(s.b.y); }) ACC_T(class T, Wr<T>, f(s.a.x); f(s.a.y);)
ACC_T(class T COMMA class U, std::pair<T COMMA U>, f(s.first); f(s.second);)
template <class... T> struct Acc<std::tuple<T...>> { template <class V, class F> static void each(V& s, F f) { [&]<std::size_t... I>(std::index_sequence<I...>) { using std::get; (f(get<I>(s)), ...); }(std::index_sequence_for<T...>()); } };
// structures which are no templates: members of the simdized form are accessed with get<I>
#define IS_S (std::is_same_v<std::remove_const_t<V>, S>)
#define ACC_S(TYPE, SC, VC) template <> struct Acc<TYPE> { template <class V, class F> static void each(V& s, F f) { using vir::get; if constexpr (std::is_same_v<std::remove_const_t<V>, TYPE>) { SC } else { VC } } };
ACC_S(S1, f(s.a);, f(get<0>(s));) ACC_S(S2, f(s.a); f(s.b);, f(get<0>(s)); f(get<1>(s));) ACC_S(S3, f(s.a); f(s.b); f(s.c);, f(get<0>(s)); f(get<1>(s)); f(get<2>(s));)
ACC_S(S4, f(s.x); f(s.y); f(s.z); f(s.t);, f(get<0>(s)); f(get<1>(s)); f(get<2>(s)); f(get<3>(s));)
ACC_S(S6, f(s.a); f(s.b); f(s.c); f(s.d); f(s.e); f(s.f);, f(get<0>(s)); f(get<1>(s)); f(get<2>(s)); f(get<3>(s)); f(get<4>(s)); f(get<5>(s));)
ACC_S(SN, f(s.p.a); f(s.p.b); f(s.q); f(s.r.a);, f(get<0>(get<0>(s))); f(get<1>(get<0>(s))); f(get<1>(s)); f(get<0>(get<2>(s)));)
ACC_S(SA, f(s.p.x); f(s.p.y); f(s.q);, f(get<0>(s).x); f(get<0>(s).y); f(get<1>(s));)

using D = double;
template <class S> constexpr unsigned leaves = [] { unsigned n = 0; S s{}; return n; }();
// bit pattern of every leaf of element i in b[i][m]
template <class S> void leafbits(const S& s, uint64_t* b) { unsigned m = 0; Acc<S>::each(s, [&](const auto& x) { b[m++] = vp::bits(x); }); }
template <class S> void symstruct(S& s) { Acc<S>::each(s, [&](auto& x) { vp::sym(&x, 1, "member"); }); }
// some object: broadcast, or (array members cannot be broadcast) loaded
template <class S> constexpr bool is_arr = false;
template <class T, std::size_t N> constexpr bool is_arr<PA<T, N>> = true;
template <class S, class V> V zero() { if constexpr (is_arr<S>) { static const S z[V::size()] = {}; return V(z); } else { S z{}; return V(z); } }
enum What { LOAD, STORE, SUB, BCAST };
template <class S, int N0, What W> void sz() {
  using V = vir::simdize<S, N0>;
  constexpr int N = V::size();
  static_assert(N0 == 0 || N == N0);
  uint64_t a[N][8], b[8];
  bool ok = true;
  if constexpr (W == BCAST) {
    S s{}; symstruct(s); leafbits(s, b);
    V v(s);
    unsigned m = 0; Acc<S>::each(v, [&](const auto& x) { for (int i = 0; i < N; ++i) ok &= vp::bits(typename std::remove_cvref_t<decltype(x)>::value_type(x[i])) == b[m]; ++m; });
    vp_assert(ok, "construction from one structure broadcasts each member");
  } else {
    S* mem = static_cast<S*>(vp_alloc(N * sizeof(S), 64, alignof(S), "mem"));
    for (int i = 0; i < N; ++i) { symstruct(mem[i]); leafbits(mem[i], a[i]); }
    if constexpr (W == LOAD) {
      V v(mem);
      unsigned m = 0; Acc<S>::each(v, [&](const auto& x) { for (int i = 0; i < N; ++i) ok &= vp::bits(typename std::remove_cvref_t<decltype(x)>::value_type(x[i])) == a[i][m]; ++m; });
      vp_assert(ok, "lane i of member m is member m of element i (constructor)");
      V w = zero<S, V>(); w.copy_from(mem);
      m = 0; ok = true; Acc<S>::each(w, [&](const auto& x) { for (int i = 0; i < N; ++i) ok &= vp::bits(typename std::remove_cvref_t<decltype(x)>::value_type(x[i])) == a[i][m]; ++m; });
      vp_assert(ok, "lane i of member m is member m of element i (copy_from)");
    } else {
      V v = zero<S, V>();
      unsigned m = 0; Acc<S>::each(v, [&](auto& x) { using X = std::remove_reference_t<decltype(x)>; using T = typename X::value_type; x = X([&](auto i) { T t; const typename vp::uint_<sizeof(T)>::type u = a[i][m]; __builtin_memcpy(&t, &u, sizeof(T)); return t; }); ++m; });
      if constexpr (W == STORE) {
        S* out = static_cast<S*>(vp_alloc(N * sizeof(S), 64, alignof(S), "out"));
        for (int i = 0; i < N; ++i) symstruct(out[i]);
        v.copy_to(out);
        for (int i = 0; i < N; ++i) { leafbits(out[i], b); for (unsigned k = 0; k < m; ++k) ok &= b[k] == a[i][k]; }
        vp_assert(ok, "member m of stored element i is lane i of member m");
      } else {
        const unsigned i = vp_fork(0, N - 1, "i");
        const S s = v[i]; leafbits(s, b);
        for (unsigned k = 0; k < m; ++k) ok &= b[k] == a[i][k];
        vp_assert(ok, "operator[](i) is the i-th structure");
      }
    }
  }
}
// (the library does not provide loads for nested structures that are no templates)
#define ZT(NM, S, N) VP(NM##_##N##_store, (sz<PAR S, N, STORE>)) ZS(NM, S, N) ZB(NM, S, N)
#define PAR(...) __VA_ARGS__
#define Z(NM, S, N) VP(NM##_##N##_load, (sz<PAR S, N, LOAD>)) VP(NM##_##N##_store, (sz<PAR S, N, STORE>))
#define ZS(NM, S, N) VP(NM##_##N##_sub, (sz<PAR S, N, SUB>))
#define ZB(NM, S, N) VP(NM##_##N##_bcast, (sz<PAR S, N, BCAST>))
#define Z4(NM, S, N) Z(NM, S, N) ZS(NM, S, N) ZB(NM, S, N)
#if VP_TIER > 1
#define WID(NM, S) Z4(NM, S, 0) Z(NM, S, 1) Z(NM, S, 2) Z(NM, S, 3) Z4(NM, S, 4) Z(NM, S, 5) Z(NM, S, 8) Z(NM, S, 16)
#define WIL WID
#else
#define WID(NM, S) Z4(NM, S, 0) Z(NM, S, 2) Z(NM, S, 3) Z(NM, S, 4) Z(NM, S, 8)
#define WIL(NM, S) Z4(NM, S, 0) Z(NM, S, 4)
#endif
#if VP_G == 1
WID(p3_f32, (P3<float>)) WID(p3_f64, (P3<double>)) WIL(p3_i32, (P3<int>)) WID(p3_i16, (P3<short>)) WID(p3_u8, (P3<u8>)) Z(p3_u8, (P3<u8>), 32) Z(p3_i8, (P3<i8>), 12) Z(p3_f32, (P3<float>), 7) Z(p3_f32, (P3<float>), 17)
#elif VP_G == 3
WID(p2_f32, (P2<float>)) WIL(p2_f64, (P2<double>)) WIL(p2_i64, (P2<long>)) WID(p2_i32, (P2<int>)) WID(p2_i16, (P2<short>)) WID(p2_u8, (P2<u8>)) Z(p2_u8, (P2<u8>), 32)
WID(p1_f32, (P1<float>)) WID(p4_f32, (P4<float>)) WIL(p4_f64, (P4<double>)) WIL(p4_i16, (P4<short>)) WID(p5_i32, (P5<int>)) WIL(p7_f32, (P7<float>)) 
#elif VP_G == 4
WID(pq_if, (PQ<int, float>)) WIL(pq_id, (PQ<int, double>)) WIL(pq_si, (PQ<short, int>)) WID(pqr_fif, (PQR<float, int, unsigned>)) WIL(pqr_isc, (PQR<int, short, i8>)) WIL(pqr_dli, (PQR<double, long, int>)) WIL(pqr_ffi, (PQR<float, float, int>))
#elif VP_G == 5
WID(pair_ff, (std::pair<float, float>)) WIL(pair_is, (std::pair<int, short>)) WID(tup_fff, (std::tuple<float, float, float>)) WID(tup_ff, (std::tuple<float, float>)) WID(tup_sss, (std::tuple<short, short, short>)) WIL(tup_id, (std::tuple<int, double>)) WIL(tup_sicd, (std::tuple<short, int, i8, double>))
#else
#if VP_TIER > 1
#define PAS(NM, S) Z(NM, S, 4) ZS(NM, S, 4) Z(NM, S, 0) Z(NM, S, 3) Z(NM, S, 8)
#else // (wide arrays take long to compile)
#define PAS(NM, S) Z(NM, S, 4) ZS(NM, S, 4) Z(NM, S, 3)
#endif
Z4(s1, (S1), 0) Z4(s2, (S2), 0) Z4(s3, (S3), 0) Z4(s4, (S4), 0) Z4(s6, (S6), 0) Z4(s2, (S2), 4) Z4(s3, (S3), 3) Z4(s4, (S4), 8) Z4(s4, (S4), 5) Z4(s6, (S6), 4) Z(s6, (S6), 7) ZT(sn, (SN), 4) ZT(sn, (SN), 0) ZT(sn, (SN), 3) ZT(sa, (SA), 0) ZT(sa, (SA), 4) ZT(sa, (SA), 3)
PAS(pa3, (PA<float, 3>)) PAS(pa4, (PA<float, 4>)) PAS(pa5s, (PA<short, 5>))
ZT(ln_f32, (Ln<float>), 4) ZT(ln_f32, (Ln<float>), 0) ZT(ln_i64, (Ln<long>), 3)
ZT(wr, (Wr<float>), 4)
#endif
