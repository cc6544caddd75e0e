#ifndef VP_SIMDH_H
#define VP_SIMDH_H
#include "vp.h"
#include <vir/simd.h>
#include <cmath>
#include <functional>
#include <limits>
#include <algorithm>

namespace stdx = vir::stdx;
using i8 = signed char; using u8 = unsigned char; using ch = char; using i16 = short; using u16 = unsigned short;
using i32 = int; using u32 = unsigned; using i64 = long; using u64 = unsigned long; using ll = long long; using ull = unsigned long long;
using f32 = float; using f64 = double; using c16 = char16_t; using c32 = char32_t; using wch = wchar_t;

namespace ab {
  template <class T> using s = stdx::simd_abi::scalar;
  template <class T> using n = stdx::simd_abi::native<T>;
  template <class T> using c = stdx::simd_abi::compatible<T>;
#define VP_FIX(K) template <class T> using f##K = stdx::simd_abi::fixed_size<K>;
  VP_FIX(1) VP_FIX(2) VP_FIX(3) VP_FIX(4) VP_FIX(5) VP_FIX(6) VP_FIX(7) VP_FIX(8) VP_FIX(9) VP_FIX(10) VP_FIX(11) VP_FIX(12) VP_FIX(13) VP_FIX(15) VP_FIX(16) VP_FIX(17) VP_FIX(19) VP_FIX(20) VP_FIX(24) VP_FIX(31) VP_FIX(32)
#ifdef VIR_DISABLE_STDX_SIMD // (libstdc++ stops at 32 elements)
#define VP_WIDE(...) __VA_ARGS__
  VP_FIX(33) VP_FIX(40) VP_FIX(64) VP_FIX(65) VP_FIX(130) VP_FIX(300)
#else
#define VP_WIDE(...)
#endif
}
// one harness: function template FN instantiated with simd<T, ABI>
#define VPI(FN, T, A) VP(FN##_##T##_##A, FN<stdx::simd<T, ab::A<T>>>)

namespace vp {
  template <class V> using value_t = typename V::value_type;
  template <class V> inline V mk(const typename V::value_type* a) { return V([&](auto i) { return a[i]; }); }
  template <class M> inline M mkmask(const bool* b) { M m(false); for (size_t i = 0; i < M::size(); ++i) m[i] = b[i]; return m; }
  // an arbitrary simd whose lanes are also in a[]
  template <class V> inline V symv(typename V::value_type* a, const char* name) { sym(a, V::size(), name); return mk<V>(a); }
  template <class M> inline M symm(bool* b, const char* name) { vp_symbool(b, M::size(), name); return mkmask<M>(b); }
  // every value of U is a value of T
  template <class U, class T> constexpr bool preserving() {
    using A = std::numeric_limits<U>; using B = std::numeric_limits<T>;
    if (std::is_same_v<U, T>) return true;
    if (std::is_floating_point_v<U> && !std::is_floating_point_v<T>) return false;
    if (std::is_signed_v<U> && !std::is_signed_v<T>) return false;
    return A::digits <= B::digits;
  }
  template <class T> inline constexpr bool is_fp = std::is_floating_point_v<T>;
}
#endif
