// C08: simd reductions combine every lane exactly once
// @unit name=int8 defs=VP_G=1
// @unit name=int16 defs=VP_G=2
// @unit name=int32 defs=VP_G=3
// @unit name=int64 defs=VP_G=4
// @unit name=fp defs=VP_G=5
// @unit name=hminmax defs=VP_G=6
// @bound all lane values and masks (masked reductions split by the first selected lane); vir's own implementation; integer reductions exact for plus, multiplies (lanes of a product: symbolic 8-bit or up to 8 lanes), bit_and, bit_or, bit_xor, min, max; floating-point sums: one arbitrary non-zero lane (each position in turn, others zero) and two arbitrary lanes (each pair of positions, others neutral or not selected); min/max: all lane values for up to 4 lanes (8-bit: 8), beyond that every lane is one of two arbitrary values in any pattern (no NaN); widths as instantiated (1..32)
#include "simdh.h"
#define FORN for (int i = 0; i < N; ++i)
template <class V> void ints() {
  using T = typename V::value_type; constexpr int N = V::size(); T a[N]; const V x = vp::symv<V>(a, "x");
  T sum = 0, an = T(~T(0)), o = 0, xo = 0; FORN { sum = T(sum + a[i]); an = T(an & a[i]); o = T(o | a[i]); xo = T(xo ^ a[i]); }
  vp_assert(reduce(x) == sum, "reduce (default plus)");
  vp_assert(reduce(x, std::plus<>()) == sum, "reduce plus");
  vp_assert(reduce(x, std::bit_and<>()) == an, "reduce bit_and");
  vp_assert(reduce(x, std::bit_or<>()) == o, "reduce bit_or");
  vp_assert(reduce(x, std::bit_xor<>()) == xo, "reduce bit_xor");
  vp_assert(reduce(x, [](const auto& l, const auto& r) { return l ^ r; }) == xo, "reduce user operation");
}
// every mask, one first selected lane (or none) after the other
template <class M, int N> M firstm(bool* k) { const unsigned j = vp_fork(0, N, "first selected lane"); vp_symbool(k, N, "mask"); FORN if (i <= int(j)) k[i] = i == int(j); return vp::mkmask<M>(k); }
template <class V> void mints() {
  using T = typename V::value_type; using M = typename V::mask_type; constexpr int N = V::size(); T a[N]; const V x = vp::symv<V>(a, "x"); V y = x; bool k[N]; const M m = firstm<M, N>(k);
  T sum = 0, an = T(~T(0)), o = 0, xo = 0; FORN { sum = T(sum + (k[i] ? a[i] : T(0))); an = T(an & (k[i] ? a[i] : T(~T(0)))); o = T(o | (k[i] ? a[i] : T(0))); xo = T(xo ^ (k[i] ? a[i] : T(0))); }
  vp_assert(reduce(where(m, x)) == sum, "masked reduce (default plus)");
  vp_assert(reduce(where(m, y)) == sum, "masked reduce non-const (default plus)");
  vp_assert(reduce(where(m, x), std::plus<>()) == sum, "masked reduce plus");
  vp_assert(reduce(where(m, x), T(0), std::plus<>()) == sum, "masked reduce identity plus");
  vp_assert(reduce(where(m, x), std::bit_and<>()) == an, "masked reduce bit_and");
  vp_assert(reduce(where(m, x), std::bit_or<>()) == o, "masked reduce bit_or");
  vp_assert(reduce(where(m, x), std::bit_xor<>()) == xo, "masked reduce bit_xor");
  vp_assert(reduce(where(m, x), T(0), [](const auto& l, const auto& r) { return l ^ r; }) == xo, "masked reduce user operation");
}
template <class V> void none() {
  using T = typename V::value_type; using M = typename V::mask_type; constexpr int N = V::size(); T a[N]; const V x = vp::symv<V>(a, "x"); const M m(false); const T id = vp::sym1<T>("identity");
  vp_assert(vp::same<T>(reduce(where(m, x), id, std::plus<>()), id), "masked reduce of nothing is the identity");
  vp_assert(vp::same<T>(reduce(where(m, x), id, [](const auto& l, const auto& r) { return l + r; }), id), "masked reduce of nothing is the identity (user operation)");
  vp_assert(vp::same<T>(reduce(where(m, x)), T(0)), "masked plus of nothing"); vp_assert(vp::same<T>(reduce(where(m, x), std::multiplies<>()), T(1)), "masked product of nothing");
  vp_assert(vp::same<T>(hmin(where(m, x)), std::numeric_limits<T>::max()), "masked hmin of nothing"); vp_assert(vp::same<T>(hmax(where(m, x)), std::numeric_limits<T>::lowest()), "masked hmax of nothing");
}
template <class V> void prod() {
  using T = typename V::value_type; using M = typename V::mask_type; constexpr int N = V::size(); T a[N]; vp::sym(a, N, "x"); if (N > 4) FORN vp_assume(a[i] >= 1 && a[i] <= 3);
  const V x = vp::mk<V>(a); bool k[N]; const M m = firstm<M, N>(k); T p = 1, q = 1; FORN { p = T(p * a[i]); q = T(q * (k[i] ? a[i] : T(1))); }
  vp_assert(reduce(x, std::multiplies<>()) == p, "reduce multiplies");
  vp_assert(reduce(where(m, x), std::multiplies<>()) == q, "masked reduce multiplies");
  vp_assert(reduce(where(m, x), T(1), std::multiplies<>()) == q, "masked reduce identity multiplies");
}
template <class V> void fsum() { // one arbitrary lane, the others zero (and for the product: one)
  using T = typename V::value_type; using M = typename V::mask_type; constexpr int N = V::size(); T a[N], b[N]; const unsigned j = vp_fork(0, N - 1, "lane"); const T v = vp::sym1<T>("x"); vp_assume(vp::finite(v));
  FORN { a[i] = i == int(j) ? v : T(0); b[i] = i == int(j) ? v : T(1); } const V x = vp::mk<V>(a), y = vp::mk<V>(b);
  vp_assert(reduce(x) == v, "reduce of one non-zero lane"); vp_assert(reduce(x, std::plus<>()) == v, "reduce plus of one non-zero lane"); vp_assert(reduce(y, std::multiplies<>()) == v, "reduce multiplies of one lane other than 1");
  const M m([&](size_t i) { return i == j; }); T c[N]; vp::sym(c, N, "z"); vp_assume(vp::finite(c[j])); const V z = vp::mk<V>(c);
  vp_assert(reduce(where(m, z)) == c[j], "masked reduce of one selected lane"); vp_assert(reduce(where(m, z), std::multiplies<>()) == c[j], "masked reduce multiplies of one selected lane"); vp_assert(reduce(where(m, z), T(0), std::plus<>()) == c[j], "masked reduce identity plus of one selected lane");
}
template <class V> void fpair() { // two arbitrary lanes (infinities, NaN, zeros included), the others neutral or not selected
  using T = typename V::value_type; using M = typename V::mask_type; constexpr int N = V::size(); T a[N], b[N]; const unsigned j = vp_fork(1, N - 1, "lane"), i0 = vp_fork(0, j - 1, "lane"); const T v = vp::sym1<T>("x"), w = vp::sym1<T>("y");
  FORN { a[i] = i == int(j) ? v : i == int(i0) ? w : T(0); b[i] = i == int(j) ? v : i == int(i0) ? w : T(1); } const V x = vp::mk<V>(a), y = vp::mk<V>(b);
  auto eqv = [](T l, T r) { return l == r || (vp::isnan(l) && vp::isnan(r)); };
  vp_assert(eqv(reduce(x), w + v), "reduce of two lanes"); vp_assert(eqv(reduce(y, std::multiplies<>()), w * v), "reduce multiplies of two lanes");
  bool k[N]; FORN k[i] = i == int(j) || i == int(i0); const M m = vp::mkmask<M>(k); T c[N]; vp::sym(c, N, "z"); const V z = vp::mk<V>(c);
  vp_assert(eqv(reduce(where(m, z)), c[i0] + c[j]), "masked reduce of two selected lanes"); vp_assert(eqv(reduce(where(m, z), std::multiplies<>()), c[i0] * c[j]), "masked reduce multiplies of two selected lanes");
  vp_assert(eqv(reduce(where(m, z), T(1), std::multiplies<>()), c[i0] * c[j]), "masked reduce identity multiplies of two selected lanes");
}
// few lanes: all values; more lanes: every lane is one of two arbitrary values (which pattern is arbitrary, too)
template <class T, int N> void lanes(T* a) {
  if constexpr (N <= 4 || (N <= 8 && sizeof(T) == 1)) { vp::sym(a, N, "x"); FORN vp_assume(!vp::isnan(a[i])); }
  else { const T p = vp::sym1<T>("p"), q = vp::sym1<T>("q"); vp_assume(!vp::isnan(p) && !vp::isnan(q)); bool s[N]; vp_symbool(s, N, "choice"); FORN a[i] = s[i] ? p : q; }
}
template <class V> void hmm() {
  using T = typename V::value_type; using M = typename V::mask_type; constexpr int N = V::size(); T a[N]; lanes<T, N>(a); const V x = vp::mk<V>(a);
  { const T r = hmin(x); bool le = true, in = false; FORN { le &= r <= a[i]; in |= r == a[i]; } vp_assert(le, "hmin <= every lane"); vp_assert(in, "hmin is a lane value"); }
  { const T r = hmax(x); bool ge = true, in = false; FORN { ge &= r >= a[i]; in |= r == a[i]; } vp_assert(ge, "hmax >= every lane"); vp_assert(in, "hmax is a lane value"); }
}
template <class V> void mhmm() {
  using T = typename V::value_type; using M = typename V::mask_type; constexpr int N = V::size(); T a[N]; lanes<T, N>(a); const V x = vp::mk<V>(a); V y = x;
  bool k[N]; const M m = vp::symm<M>(k, "mask"); bool any = false; FORN any |= k[i]; vp_assume(any);
  { const T r = hmin(where(m, x)); bool le = true, in = false; FORN { le &= !k[i] | (r <= a[i]); in |= k[i] & (r == a[i]); } vp_assert(le, "masked hmin <= every selected lane"); vp_assert(in, "masked hmin is a selected lane"); }
  { const T r = hmax(where(m, y)); bool ge = true, in = false; FORN { ge &= !k[i] | (r >= a[i]); in |= k[i] & (r == a[i]); } vp_assert(ge, "masked hmax >= every selected lane"); vp_assert(in, "masked hmax is a selected lane"); }
}
#define SZ(FN, T) VPI(FN, T, s) VPI(FN, T, f1) VPI(FN, T, f2) VPI(FN, T, f3) VPI(FN, T, f4) VPI(FN, T, f5) VPI(FN, T, f6) VPI(FN, T, f7) VPI(FN, T, f8) VPI(FN, T, f9) VPI(FN, T, f10) VPI(FN, T, f11) VPI(FN, T, f12) VPI(FN, T, f13) VPI(FN, T, f15) VPI(FN, T, f16) VPI(FN, T, f17) VPI(FN, T, f24) VPI(FN, T, f31) VPI(FN, T, f32)
#define SM(FN, T) VPI(FN, T, s) VPI(FN, T, f1) VPI(FN, T, f2) VPI(FN, T, f3) VPI(FN, T, f4) VPI(FN, T, f5) VPI(FN, T, f7) VPI(FN, T, f8) VPI(FN, T, f12) VPI(FN, T, f17)
#define ALLI(T) SZ(ints, T) SM(mints, T) SM(none, T) VPI(mints, T, f32) VPI(prod, T, s) VPI(prod, T, f1) VPI(prod, T, f2) VPI(prod, T, f3) VPI(prod, T, f4) VPI(prod, T, f5) VPI(prod, T, f8)
#define FP2(T) VPI(fpair, T, f2) VPI(fpair, T, f3) VPI(fpair, T, f4) VPI(fpair, T, f5) VPI(fpair, T, f8)
#if VP_G == 1
ALLI(i8) ALLI(u8) VP_WIDE(VPI(ints, i8, f64) VPI(mints, u8, f64) VPI(none, i8, f64) VPI(ints, u8, f65))
#elif VP_G == 2
ALLI(i16) ALLI(u16)
#elif VP_G == 3
ALLI(i32) ALLI(u32) VP_WIDE(VPI(ints, i32, f33) VPI(mints, u32, f40))
#elif VP_G == 4
ALLI(i64) ALLI(u64)
#elif VP_G == 5
SM(fsum, f32) SM(fsum, f64) FP2(f32) FP2(f64) SM(none, f32) SM(none, f64)
#else
#define H(T) SM(hmm, T) SM(mhmm, T) VPI(hmm, T, f9) VPI(hmm, T, f11) VPI(hmm, T, f16) VPI(hmm, T, f31)
VP_WIDE(VPI(hmm, i8, f64) VPI(hmm, f32, f33))
H(i8) H(u8) H(i16) H(u16) H(i32) H(u32) H(i64) H(u64) H(f32) H(f64)
#endif
