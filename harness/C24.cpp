// C24: algorithms and simd code give the same result when constant-evaluated
// @unit name=perm_a defs=VP_SRC=13,VP_G=1
// @unit name=perm_b defs=VP_SRC=13,VP_G=2 tier=thorough
// @unit name=perm_std cfg=stdlib defs=VP_SRC=13,VP_G=1 tier=thorough
// @unit name=simdize1 defs=VP_SRC=18,VP_G=1
// @unit name=simdize3 defs=VP_SRC=18,VP_G=3
// @unit name=simdize4 defs=VP_SRC=18,VP_G=4 tier=thorough
// @unit name=simdize5 defs=VP_SRC=18,VP_G=5 tier=thorough
// @unit name=simdizen defs=VP_SRC=18,VP_G=2
// @unit name=simdize_std cfg=stdlib defs=VP_SRC=18,VP_G=1 tier=thorough
// @unit name=each1 defs=VP_SRC=20,VP_G=1
// @unit name=each2 defs=VP_SRC=20,VP_G=2
// @unit name=each3 cfg=stdlib defs=VP_SRC=20,VP_G=3
// @unit name=tr1 defs=VP_SRC=21,VP_G=1
// @unit name=tr2 defs=VP_SRC=21,VP_G=2
// @unit name=tr3 cfg=stdlib defs=VP_SRC=21,VP_G=3
// @unit name=trz std=gnu++23 defs=VP_SRC=21,VP_G=4
// @unit name=red1 defs=VP_SRC=22,VP_G=1
// @unit name=red2 defs=VP_SRC=22,VP_G=2
// @unit name=red3 cfg=stdlib defs=VP_SRC=22,VP_G=3
// @unit name=count1 defs=VP_SRC=23,VP_G=1
// @unit name=count2 defs=VP_SRC=23,VP_G=2
// @unit name=count3 cfg=stdlib defs=VP_SRC=23,VP_G=3
// @bound the harnesses of C13, C18 and C20..C23 with std::is_constant_evaluated() replaced by true for the library's headers, i.e. the code selected for constant evaluation is executed for every value and length within the bounds of those checks
#include <bits/stdc++.h>
#ifndef VIR_DISABLE_STDX_SIMD
#include <experimental/simd>
#endif
namespace std { constexpr bool vp_constant_evaluated() noexcept { return true; } }
#define is_constant_evaluated vp_constant_evaluated
#if VP_SRC == 13
#include "C13.cpp"
#elif VP_SRC == 18
#include "C18.cpp"
#elif VP_SRC == 20
#include "C20.cpp"
#elif VP_SRC == 21
#include "C21.cpp"
#elif VP_SRC == 22
#include "C22.cpp"
#else
#include "C23.cpp"
#endif
