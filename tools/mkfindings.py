#!/usr/bin/env python3
"""(re)writes known-findings.json; run by hand when a defect is repaired or recorded."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = dict(reversed(l.split(" ", 1)) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines())
def fixed(prop, subject, what):
    h = [c for s, c in log.items() if s.startswith("fix: " + subject)]
    assert len(h) == 1, (subject, h)
    return {"status": "fixed", "property": prop, "commit": h[0], "what": what, "text": "fixed: property=%s %s %s" % (prop, h[0], what)}
F = [
  fixed("C05", "masked load constructor of scalar", "simd_mask<T, scalar>(mem, k, flags) did not compile (indexed a bool)"),
  fixed("C06", "to_native, to_compatible", "to_native/to_compatible/to_fixed_size did not compile or accept all sizes documented"),
  fixed("C08", "masked hmin/hmax", "hmin(where(k, x)) / hmax(where(k, x)) returned max()/lowest() when all selected values were +inf/-inf"),
  fixed("C12", "VIR_CHECK_PRECONDITIONS default", "without -DVIR_CHECK_PRECONDITIONS a failed precondition ran into __builtin_unreachable() instead of trapping (the default was defined after its first use)"),
  fixed("C12", "VIR_CHECK_PRECONDITIONS=4/5 did not compile without", "VIR_CHECK_PRECONDITIONS=4 and 5 did not compile (no <cstdio>)"),
  fixed("C12", "VIR_CHECK_PRECONDITIONS=4/5 did not compile with clang", "VIR_CHECK_PRECONDITIONS=4 and 5 did not compile with clang (attribute position)"),
  fixed("C20", "prefer_aligned() accessed", "prefer_aligned() on a range shorter than the prologue read and wrote elements past the end of the range"),
  fixed("C22", "transform_reduce/reduce ran into", "transform_reduce/reduce reached unreachable code when the prologue consumed the whole range"),
  fixed("C24", "constant-evaluated for_each", "for_each with simd width 2 processed the last element twice in constant evaluation"),
  fixed("C18", "simdize<Point<float>, 8>", "simdize of a structure of two floats, 8 elements, loaded the elements in permuted order"),
  fixed("C18", "simdize<std::tuple<...>>", "simdize of std::tuple loaded/stored the members in memory order (reverse) instead of tuple order"),
  fixed("C13", "simd_permute.h did not compile on its own", "simd_permute.h alone did not compile with AVX2 (detail::bit_cast not declared)"),
  fixed("C13", "rotate<Offset> with negative", "rotate<negative> of non-power-of-2 sizes selected wrong lanes (unsigned modulo)"),
  fixed("C13", "even rotations of float", "even rotations of 8 (and of padded 5..7) floats with AVX2: wrong lanes / not compiling for negative or large offsets and for a different number of results"),
  fixed("C13", "simd_permute of masks and of simd types", "simd_permute of masks and padded types: did not compile, simd_permute_zero read the padding"),
  fixed("C15", "simd_permute, simd_shift_in and simd_resize", "simd_resize, simd_permute and simd_shift_in of libstdc++ masks did not compile"),
  fixed("C16", "bitwise operators of fixed_size_simd", "&, |, ^ of fixed_size_simd<floating-point> (libstdc++) did not compile"),
  fixed("C26", "fake_modify did not compile", "fake_modify of e.g. fixed_size_simd<float, 3> (fallback) did not compile"),
]
exec(open(os.path.join(V, "tools", "findings_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "findings_more.py")) else None
json.dump({"findings": F}, open(os.path.join(V, "known-findings.json"), "w"), indent=1)
