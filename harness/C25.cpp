// C25: version comparison is the lexicographic order of (major, minor, patch)
// @unit name=cxx17 std=c++17
// @unit name=cxx20 std=c++20
// @unit name=cxx23 std=gnu++23
// @bound all pairs (and triples) of versions with 32-bit components; none excluded
#include "simdh.h"
#include <vir/simd_version.h>
using ver = vir::simd_version_t;
ver arb() { ver v; vp::sym(&v.major, 1, "major"); vp::sym(&v.minor, 1, "minor"); vp::sym(&v.patchlevel, 1, "patchlevel"); return v; }
int ref(ver a, ver b) { // -1, 0, 1
  if (a.major != b.major) return a.major < b.major ? -1 : 1;
  if (a.minor != b.minor) return a.minor < b.minor ? -1 : 1;
  return a.patchlevel == b.patchlevel ? 0 : a.patchlevel < b.patchlevel ? -1 : 1;
}
void ops() {
  const ver a = arb(), b = arb(); const int r = ref(a, b);
  vp_assert((a == b) == (r == 0), "=="); vp_assert((a != b) == (r != 0), "!="); vp_assert((a < b) == (r < 0), "<"); vp_assert((a <= b) == (r <= 0), "<="); vp_assert((a > b) == (r > 0), ">"); vp_assert((a >= b) == (r >= 0), ">=");
}
VP(ops, ops)
void current() {
  const ver c = vir::simd_version; const unsigned n = VIR_SIMD_VERSION;
  vp_assert(c.major == int(n >> 16) && c.minor == int((n >> 8) & 0xff) && c.patchlevel == int(n & 0xff), "simd_version");
  vp_assert(VIR_SIMD_VERSION_MAJOR == int(n >> 16) && VIR_SIMD_VERSION_MINOR == int((n >> 8) & 0xff) && VIR_SIMD_VERSION_PATCHLEVEL == int(n & 0xff), "version macros");
  ver v; unsigned x = vp::sym1<unsigned>("version"); vp_assume(x < 0x1000000); v.major = x >> 16; v.minor = (x >> 8) & 0xff; v.patchlevel = x & 0xff;
  vp_assert((c >= v) == (n >= x) && (c < v) == (n < x) && (c == v) == (n == x), "comparison with the current version");
}
VP(current, current)
