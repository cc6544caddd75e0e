// C03: mask reductions report exactly the set lanes
// @unit name=fb cfg=fallback std=gnu++20
// @bound every mask value (wider than 65 lanes: sixteen arbitrary lanes, the others all set or all clear); element types of 1, 2, 4, 8 bytes; scalar, compatible, native (AVX2) and fixed_size<N> ABIs, N in 1..65, 130 and 300 as instantiated below
#include "simdh.h"

template <class V> void red() {
  using M = typename V::mask_type;
  constexpr int N = V::size();
  bool b[N];
  M m = [&] {
    if constexpr (N <= 65) return vp::symm<M>(b, "mask");
    else { // all lanes concrete and equal but sixteen symbolic ones
      constexpr int at[16] = {0, 1, 31, 32, 63, 64, 65, 126, 127, 128, N / 2, N / 2 + 1, N > 256 ? 255 : 100, N > 256 ? 256 : 101, N - 2, N - 1};
      bool x[16]; vp_symbool(x, 16, "lanes"); const bool o = vp_fork(0, 1, "other lanes");
      for (int i = 0; i < N; ++i) b[i] = o;
      for (int i = 0; i < 16; ++i) b[at[i]] = x[i];
      return M([&](auto i) -> bool { return b[i]; });
    }
  }();
  bool all = true, any = false; int count = 0, first = 0, last = 0;
  for (int i = 0; i < N; ++i) { all &= b[i]; any |= b[i]; count += b[i]; last = b[i] ? i : last; }
  for (int i = N - 1; i >= 0; --i) first = b[i] ? i : first;
  vp_assert(all_of(m) == all, "all_of");
  vp_assert(any_of(m) == any, "any_of");
  vp_assert(none_of(m) == !any, "none_of");
  vp_assert(some_of(m) == (any && !all), "some_of");
  vp_assert(popcount(m) == count, "popcount");
  if (any) {
    vp_assert(find_first_set(m) == first, "find_first_set");
    vp_assert(find_last_set(m) == last, "find_last_set");
  }
  bool ok = true;
  for (int i = 0; i < N; ++i) ok &= m[i] == b[i];
  vp_assert(ok, "mask unchanged");
}
VPI(red, f32, n) VPI(red, f64, n) VPI(red, i8, n) VPI(red, u16, n) VPI(red, i64, n)
VPI(red, f32, c) VPI(red, u8, c) VPI(red, i32, c) VPI(red, f64, c)
VPI(red, u16, s) VPI(red, f32, s) VPI(red, i8, s) VPI(red, u64, s)
VPI(red, f32, f1) VPI(red, i32, f2) VPI(red, i32, f3) VPI(red, f64, f5) VPI(red, u8, f7) VPI(red, i16, f12) VPI(red, f32, f17) VPI(red, u32, f31) VPI(red, f64, f32)
VP_WIDE(VPI(red, u8, f33) VPI(red, f32, f40) VPI(red, i8, f64) VPI(red, f64, f64) VPI(red, i32, f65) VPI(red, f32, f130) VPI(red, u8, f300))

void redbool() {
  bool b; vp_symbool(&b, 1, "b");
  vp_assert(stdx::all_of(b) == b, "all_of(bool)");
  vp_assert(stdx::any_of(b) == b, "any_of(bool)");
  vp_assert(stdx::none_of(b) == !b, "none_of(bool)");
  vp_assert(stdx::some_of(b) == false, "some_of(bool)");
  vp_assert(stdx::popcount(b) == int(b), "popcount(bool)");
  vp_assert(stdx::find_first_set(true) == 0, "find_first_set(bool)");
  vp_assert(stdx::find_last_set(true) == 0, "find_last_set(bool)");
}
VP(red_bool, redbool)
