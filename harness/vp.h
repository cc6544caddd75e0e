// Harness interface.  The same harness source is
//  (a) compiled to LLVM IR and executed symbolically by engine/symex (the vp_* functions are externals
//      there), and
//  (b) compiled natively (-DVP_NATIVE) to replay a model of the solver against the real code.
#ifndef VP_H
#define VP_H
#include <cstddef>
#include <cstdint>
#include <type_traits>

extern "C" {
void vp_sym(void* p, unsigned elsize, unsigned n, const char* name);   // n arbitrary elements
void vp_symbool(void* p, unsigned n, const char* name);                // n arbitrary bools
unsigned vp_fork(unsigned lo, unsigned hi, const char* name);          // every value in [lo, hi]
void vp_assume(bool c);
void vp_assert(bool c, const char* label);
void vp_opaque(void*);                                                  // hides an object from the optimiser (no effect)
void vp_expect_trap();                                                 // from here on the path must trap
void* vp_alloc(size_t bytes, size_t align, size_t off, const char* name); // exact object, address == off (mod align)
}

#ifdef VP_NATIVE
namespace vp { struct Reg { Reg(const char*, void (*)()); }; }
#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
#define VP(NAME, ...) extern "C" void vp_harness_##NAME() { __VA_ARGS__(); } \
  static vp::Reg VP_CAT(vp_reg_, __COUNTER__)("vp_harness_" #NAME, vp_harness_##NAME);
#else
#define VP(NAME, ...) extern "C" void vp_harness_##NAME() { __VA_ARGS__(); }
#endif

namespace vp {
  template <class T> struct bits_of { using type = T; };
  template <size_t S> struct uint_ { };
  template <> struct uint_<1> { using type = uint8_t; };
  template <> struct uint_<2> { using type = uint16_t; };
  template <> struct uint_<4> { using type = uint32_t; };
  template <> struct uint_<8> { using type = uint64_t; };
  template <class T> inline typename uint_<sizeof(T)>::type bits(T x) { typename uint_<sizeof(T)>::type r; __builtin_memcpy(&r, &x, sizeof(T)); return r; }
  // identical value: bit-identical, or both NaN
  template <class T> inline bool same(T a, T b) {
    if constexpr (std::is_same_v<T, float> || std::is_same_v<T, double>) {
      using U = typename uint_<sizeof(T)>::type;
      const U sign = U(1) << (sizeof(T) * 8 - 1);
      const U inf = sizeof(T) == 4 ? U(0x7f800000u) : U(0x7ff0000000000000ull);
      const U x = bits(a), y = bits(b);
      return (x == y) | (((x & U(~sign)) > inf) & ((y & U(~sign)) > inf));
    } else return a == b;
  }
  template <class T> inline bool finite(T a) { const auto x = bits(a); if constexpr (sizeof(T) == 4) return (x & 0x7f800000u) != 0x7f800000u; else return (x & 0x7ff0000000000000ull) != 0x7ff0000000000000ull; }
  template <class T> inline bool isnan(T a) { if constexpr (std::is_same_v<T, float>) return (bits(a) & 0x7fffffffu) > 0x7f800000u; else if constexpr (std::is_same_v<T, double>) return (bits(a) & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; else return false; }
  template <class T> inline void sym(T* p, unsigned n, const char* name) {
    if constexpr (std::is_same_v<T, bool>) vp_symbool(p, n, name); else vp_sym(p, sizeof(T), n, name);
  }
  template <class T> inline T sym1(const char* name) { T r; sym(&r, 1, name); return r; }
}
#endif
