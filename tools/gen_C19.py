#!/usr/bin/env python3
"""writes harness/C19_structs.inc (structures with 1..50 members)"""
T = ["u8", "u16", "u32", "u64", "f32", "i16", "f64", "i8"]
out = []
for n in range(1, 51):
    mem = " ".join("%s a%d;" % (T[(k * 3 + n) % 8], k) for k in range(n))
    out.append("struct S%d { %s static constexpr int n = %d;\n  template <class F> static void each(F f) { %s } };" % (n, mem, n, " ".join("f(std::integral_constant<int, %d>(), &S%d::a%d);" % (k, n, k) for k in range(n))))
open(__file__.rsplit("/", 2)[0] + "/harness/C19_structs.inc", "w").write("\n".join(out) + "\n")
