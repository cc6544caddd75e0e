From 7b5afc9d331bf52623bdfb578bd49d6fa7866b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:02 +0000
Subject: [PATCH 01/20] fix: masked load constructor of scalar simd_mask did
 not compile

The mask argument is not convertible to bool; use its only element.
---
 vir/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simd.h b/vir/simd.h
index 5f2d6a8..0c8a993 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -665,7 +665,7 @@ namespace vir::stdx
       template <typename Flags>
         constexpr
         simd_mask(const value_type* mem, simd_mask k, Flags)
-        : data(k ? mem[0] : false)
+        : data(k[0] ? mem[0] : false)
         {}
 
       // loads [simd_mask.load]
-- 
2.43.0


From cc132f7f2b4d8e4c577c84727231e890daaed44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:23 +0000
Subject: [PATCH 02/20] fix: to_native, to_compatible and to_fixed_size for all
 supported sizes

The overloads only accepted a single-element object and broadcast its value
to simd<T>, which stopped being a single-element type; to_fixed_size(scalar)
did not compile. Convert lane by lane, and constrain on the native/compatible
size as the Parallelism TS 2 specifies.
---
 vir/simd.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index 0c8a993..fa58276 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -1811,35 +1811,35 @@ namespace vir::stdx
 
   template <typename T>
     constexpr fixed_size_simd<T, 1>
-    to_fixed_size(const simd<T> x)
+    to_fixed_size(const simd<T, simd_abi::scalar>& x)
     { return x[0]; }
 
   template <typename T>
     constexpr fixed_size_simd_mask<T, 1>
-    to_fixed_size(const simd_mask<T> x)
+    to_fixed_size(const simd_mask<T, simd_abi::scalar>& x)
     { return fixed_size_simd_mask<T, 1>(x[0]); }
 
   // to_native
-  template <typename T>
-    constexpr simd<T>
-    to_native(const fixed_size_simd<T, 1> x)
-    { return x[0]; }
+  template <typename T, int N>
+    constexpr std::enable_if_t<N == simd_size_v<T, simd_abi::native<T>>, native_simd<T>>
+    to_native(const fixed_size_simd<T, N>& x)
+    { return native_simd<T>([&x](size_t i) { return x[i]; }); }
 
-  template <typename T>
-    constexpr simd_mask<T>
-    to_native(const fixed_size_simd_mask<T, 1> x)
-    { return simd_mask<T>(x[0]); }
+  template <typename T, int N>
+    constexpr std::enable_if_t<N == simd_size_v<T, simd_abi::native<T>>, native_simd_mask<T>>
+    to_native(const fixed_size_simd_mask<T, N>& x)
+    { return native_simd_mask<T>([&x](size_t i) { return x[i]; }); }
 
   // to_compatible
-  template <typename T>
-    constexpr simd<T>
-    to_compatible(const fixed_size_simd<T, 1> x)
-    { return x[0]; }
+  template <typename T, int N>
+    constexpr std::enable_if_t<N == simd_size_v<T>, simd<T>>
+    to_compatible(const fixed_size_simd<T, N>& x)
+    { return simd<T>([&x](size_t i) { return x[i]; }); }
 
-  template <typename T>
-    constexpr simd_mask<T>
-    to_compatible(const fixed_size_simd_mask<T, 1> x)
-    { return simd_mask<T>(x[0]); }
+  template <typename T, int N>
+    constexpr std::enable_if_t<N == simd_size_v<T>, simd_mask<T>>
+    to_compatible(const fixed_size_simd_mask<T, N>& x)
+    { return simd_mask<T>([&x](size_t i) { return x[i]; }); }
 
   // split(simd)
   template <typename V, int N, size_t Parts = N / V::size()>
-- 
2.43.0


From 385f2b9a956aa01a47baa1bd872891f039e0e532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:38 +0000
Subject: [PATCH 03/20] fix: masked hmin/hmax returned max()/lowest() when all
 selected values were infinite

__FINITE_MATH_ONLY__ is always defined (as 0 or 1), so the identity element
was always the finite limit, which is smaller (larger) than infinity.
---
 vir/simd.h | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index fa58276..0bbca0b 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -2374,12 +2374,11 @@ namespace vir::stdx
     hmin(const const_where_expression<M, V>& x) noexcept
     {
       using T = typename V::value_type;
-      constexpr T id_elem =
-#ifdef __FINITE_MATH_ONLY__
-        std::numeric_limits<T>::max();
-#else
-        std::numeric_limits<T>::infinity();
-#endif
+      if (none_of(get_mask(x)))
+        return std::numeric_limits<T>::max();
+      constexpr T id_elem
+        = std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity()
+                                               : std::numeric_limits<T>::max();
       return reduce(x, id_elem, [](const auto& l, const auto& r) {
                using std::min;
                return min(l, r);
@@ -2392,12 +2391,11 @@ namespace vir::stdx
     hmax(const const_where_expression<M, V>& x) noexcept
     {
       using T = typename V::value_type;
-      constexpr T id_elem =
-#ifdef __FINITE_MATH_ONLY__
-        std::numeric_limits<T>::lowest();
-#else
-        -std::numeric_limits<T>::infinity();
-#endif
+      if (none_of(get_mask(x)))
+        return std::numeric_limits<T>::lowest();
+      constexpr T id_elem
+        = std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity()
+                                               : std::numeric_limits<T>::lowest();
       return reduce(x, id_elem, [](const auto& l, const auto& r) {
                using std::max;
                return max(l, r);
-- 
2.43.0


From b2cb40264fcd9da3a483e9966be795000f6c1704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:20 +0000
Subject: [PATCH 04/20] fix: VIR_CHECK_PRECONDITIONS default was applied too
 late, failed preconditions invoked UB instead of trapping

---
 vir/simd.h | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index 0bbca0b..b73c82e 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -37,6 +37,23 @@
 #endif
 #endif
 
+/* VIR_CHECK_PRECONDITIONS:
+ * 0: Compile-time warning, invoke UB on run-time failure.
+ * 1: Compile-time   error, invoke UB on run-time failure.
+ * 2: Compile-time warning, trap on run-time failure.
+ * 3: Compile-time   error, trap on run-time failure.
+ * 4: Compile-time warning, print error and abort on run-time failure.
+ * 5: Compile-time   error, print error and abort on run-time failure.
+ */
+
+#ifndef VIR_CHECK_PRECONDITIONS
+#define VIR_CHECK_PRECONDITIONS 3
+#endif
+
+#if VIR_CHECK_PRECONDITIONS > 5 or VIR_CHECK_PRECONDITIONS < 0
+#warning "Invalid value for VIR_CHECK_PRECONDITIONS."
+#endif
+
 namespace vir::detail
 {
   [[noreturn]] VIR_GNU_COLD VIR_ALWAYS_INLINE void
@@ -83,23 +100,6 @@ namespace vir::detail
 #define VIR_SIMD_TOSTRING(x) VIR_SIMD_TOSTRING_IMPL(x)
 #define VIR_SIMD_LOC __FILE__ ":" VIR_SIMD_TOSTRING(__LINE__) ": "
 
-/* VIR_CHECK_PRECONDITIONS:
- * 0: Compile-time warning, invoke UB on run-time failure.
- * 1: Compile-time   error, invoke UB on run-time failure.
- * 2: Compile-time warning, trap on run-time failure.
- * 3: Compile-time   error, trap on run-time failure.
- * 4: Compile-time warning, print error and abort on run-time failure.
- * 5: Compile-time   error, print error and abort on run-time failure.
- */
-
-#ifndef VIR_CHECK_PRECONDITIONS
-#define VIR_CHECK_PRECONDITIONS 3
-#endif
-
-#if VIR_CHECK_PRECONDITIONS > 5 or VIR_CHECK_PRECONDITIONS < 0
-#warning "Invalid value for VIR_CHECK_PRECONDITIONS."
-#endif
-
 #ifdef __GNUC__
 #define VIR_PRETTY_FUNCTION_ __PRETTY_FUNCTION__
 #else
-- 
2.43.0


From a619fe4f2cfebb690e4851e78111ced6ee29c08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:20 +0000
Subject: [PATCH 05/20] fix: VIR_CHECK_PRECONDITIONS=4/5 did not compile
 without <cstdio>

---
 vir/simd.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vir/simd.h b/vir/simd.h
index b73c82e..b704924 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -18,6 +18,7 @@
 
 #include "simd_version.h"
 
+#include <cstdio>  // std::fprintf
 #include <cstdlib> // std::abort
 
 #if __has_include (<experimental/simd>) && !defined VIR_DISABLE_STDX_SIMD \
-- 
2.43.0


From e2a8ec289f12c409e5edf0c4634cc17fa2ca0f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:15 +0000
Subject: [PATCH 06/20] fix: VIR_CHECK_PRECONDITIONS=4/5 did not compile with
 clang

---
 vir/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simd.h b/vir/simd.h
index b704924..b33031a 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -89,7 +89,7 @@ namespace vir::detail
 #elif defined __GNUC__ and VIR_CHECK_PRECONDITIONS < 4
       __builtin_trap();
 #else
-      [&] VIR_GNU_ATTR_COLD () {
+      [&]() VIR_GNU_ATTR_COLD {
         std::fprintf(stderr, msg, args...);
       }();
       std::abort();
-- 
2.43.0


From 91458add8e82feffbca20a2db3a374f64ba9d192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:28 +0000
Subject: [PATCH 07/20] fix: prefer_aligned() accessed elements past the end of
 short ranges

---
 vir/simd_execution.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index 383307b..51de66a 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -596,7 +596,19 @@ case0:
               const auto misaligned_by_elements = misaligned_by_bytes / sizeof(T);
               const auto to_process = max_misalignment - misaligned_by_elements;
               if constexpr (use_aligned_loadstore)
-                do_prologue(max_misalignment, to_process);
+                {
+                  if (remaining < to_process)
+                    {
+                      // the range ends before the first aligned address
+                      for (; remaining > 0; --remaining)
+                        {
+                          do_prologue(vir::cw<std::size_t(2)>, std::size_t(1));
+                          ((iterators_to_advance += 1), ...);
+                        }
+                      return;
+                    }
+                  do_prologue(max_misalignment, to_process);
+                }
               else if (remaining * sizeof(T) > 4000
                          or (to_process & remaining) == to_process) // prologue replaces epilogue
                 do_prologue(max_misalignment, to_process);
-- 
2.43.0


From 5e38076dbb51e941a980bc2eac50e452b187bc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:28 +0000
Subject: [PATCH 08/20] fix: transform_reduce/reduce ran into unreachable code
 if the prologue consumed the whole range

---
 vir/simd_execution.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index 51de66a..d11ea57 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -998,6 +998,9 @@ case0:
                          acc1, first1, to_process, reduce_op, transform_op, first2...);
               }, first1, first2...);
 
+            if (distance == 0) // the prologue processed all elements
+              return acc1[0];
+
             const auto leftover = distance % size;
 
             constexpr int lo_size = std::bit_ceil(unsigned(size)) / 2;
-- 
2.43.0


From 23444d551ea65708b831e9e4fefb41c278eaf535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:28 +0000
Subject: [PATCH 09/20] fix: constant-evaluated for_each processed the last
 element twice for simd width 2

---
 vir/simd_execution.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index d11ea57..5f69c02 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -1150,8 +1150,9 @@ case0:
                                                         stdx::element_aligned, detail::no_unroll);
 
           if constexpr (size > 1)
-            detail::simd_for_each_epilogue<V, write_back>(fun, distance % size, last,
-                                                          stdx::element_aligned);
+            if (distance % size)
+              detail::simd_for_each_epilogue<V, write_back>(fun, distance % size, last,
+                                                            stdx::element_aligned);
         }
       else
         {
-- 
2.43.0


From 03819b3f6fddce7833642ecf3ef37473d59a0fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:03 +0000
Subject: [PATCH 10/20] fix: simdize<Point<float>, 8> loaded the elements in
 permuted lane order

---
 vir/simdize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simdize.h b/vir/simdize.h
index a3b7ecd..3187ac8 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -667,7 +667,7 @@ namespace vir
 		      // c = [b5 c5 a6 b6 c6 a7 b7 c7] 233 = 121+112
 
 		      using v8sf [[gnu::vector_size(32)]] = float;
-		      if constexpr (true) // allow_unordered
+		      if constexpr (false) // allow_unordered
 			{
 			  v8sf x0, x1, x2, a0, b0, c0;
 			  std::memcpy(&x0, byte_ptr +  0, 32);
-- 
2.43.0


From 173257ef45ce0792e632aec0187e90284e34069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:38 +0000
Subject: [PATCH 11/20] fix: simdize<std::tuple<...>> loaded and stored the
 members in memory order instead of tuple order

---
 vir/simdize.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/vir/simdize.h b/vir/simdize.h
index 3187ac8..c18c635 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -297,6 +297,16 @@ namespace vir
 	  }
       }
 
+    /** \internal
+     * Whether the data members of T are stored in reflection order. This holds for aggregates and
+     * std::pair but not for std::tuple (libstdc++ stores the members in reverse order).
+     */
+    template <typename T>
+      inline constexpr bool is_stored_in_order_v = std::is_aggregate_v<T>;
+
+    template <typename T, typename U>
+      inline constexpr bool is_stored_in_order_v<std::pair<T, U>> = true;
+
     template <template <typename...> class Comp,
 	      template <std::size_t, typename> class Element1, typename T1,
 	      template <std::size_t, typename> class Element2, typename T2, std::size_t... Is>
@@ -583,7 +593,8 @@ namespace vir
 #if VIR_HAVE_WORKING_SHUFFLEVECTOR
 	if (not std::is_constant_evaluated())
 	  if constexpr (N > 1 and sizeof(T) * N == sizeof(base_type) and _flat_member_count >= 2
-			  and std::has_single_bit(unsigned(N)))
+			  and std::has_single_bit(unsigned(N))
+			  and detail::is_stored_in_order_v<T>)
 	    {
 	      const std::byte* byte_ptr = reinterpret_cast<const std::byte*>(addr);
 	      // struct_size_v == 2 doesn't need anything, the fallback works fine, unless
@@ -819,7 +830,8 @@ namespace vir
 	  if (not std::is_constant_evaluated())
 	    if constexpr (N > 2 and _flat_member_count >= 2
 			    and sizeof(T) * N == sizeof(base_type)
-			    and std::has_single_bit(unsigned(N)))
+			    and std::has_single_bit(unsigned(N))
+			    and detail::is_stored_in_order_v<T>)
 	      {
 		using V0 = detail::flat_element_t<0, tuple_type>;
 		//using V1 = detail::flat_element_t<1, tuple_type>;
-- 
2.43.0


From 6fecd9700e09f2fb41039d2796f9c39b13e0665b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:16 +0000
Subject: [PATCH 12/20] fix: simd_permute.h did not compile on its own with
 AVX2 (detail::bit_cast not declared)

---
 vir/simd_permute.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index 5502830..fd006ab 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -19,6 +19,7 @@
 
 #include "simd.h"
 #include "constexpr_wrapper.h"
+#include "detail.h"
 #include <bit>
 
 namespace vir
-- 
2.43.0


From 2bbe3c1ee052379a0fb9aac34b0dfcecb6f19f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:36 +0000
Subject: [PATCH 13/20] fix: rotate<Offset> with negative Offset for
 non-power-of-2 sizes

---
 vir/simd_permute.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index fd006ab..8c6fafd 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -145,7 +145,10 @@ namespace vir
 
 	VIR_CONSTEVAL int
 	operator()(int i, auto size) const
-	{ return (i + Offset) % size.value; }
+	{
+	  constexpr int n = size.value;
+	  return ((i + Offset) % n + n) % n;
+	}
       };
 
     /// Rotate the elements by \p Offset.
-- 
2.43.0


From 595f3dcd0bc94556c4196bf10b1b71e32f1029bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:36 +0000
Subject: [PATCH 14/20] fix: even rotations of float vectors with AVX2 for any
 Offset, size and number of results

---
 vir/simd_permute.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index 8c6fafd..336dd5f 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -193,7 +193,7 @@ namespace vir
 #if defined __AVX2__
 	    using v4df [[gnu::vector_size(32)]] = double;
 	    if constexpr (std::same_as<T, float> and std::is_trivially_copyable_v<V>
-			    and sizeof(v4df) == sizeof(V)
+			    and sizeof(v4df) == sizeof(V) and V::size() == 8 and R::size() == 8
 			    and requires {
 			      F::is_even_rotation;
 			      F::Offset;
@@ -202,10 +202,10 @@ namespace vir
 			    })
 	      {
 		const v4df intrin = detail::bit_cast<v4df>(v);
-		constexpr int control = ((F::Offset / 2) << 0)
-					  | (((F::Offset / 2 + 1) % 4) << 2)
-					  | (((F::Offset / 2 + 2) % 4) << 4)
-					  | (((F::Offset / 2 + 3) % 4) << 6);
+		constexpr int control = (((F::Offset / 2 + 0) & 3) << 0)
+					  | (((F::Offset / 2 + 1) & 3) << 2)
+					  | (((F::Offset / 2 + 2) & 3) << 4)
+					  | (((F::Offset / 2 + 3) & 3) << 6);
 		return detail::bit_cast<R>(__builtin_ia32_permdf256(intrin, control));
 	      }
 #endif
-- 
2.43.0


From 4764fa70316c8099c0e4b9afe1f28fa4e78927a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:05 +0000
Subject: [PATCH 15/20] fix: simd_permute of masks and of simd types with
 padding did not compile or read the padding

---
 vir/simd_permute.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index 336dd5f..b5aa0ff 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -210,7 +210,10 @@ namespace vir
 	      }
 #endif
 #if VIR_HAVE_WORKING_SHUFFLEVECTOR
-	    if constexpr (std::has_single_bit(sizeof(V)) and std::has_single_bit(sizeof(R)))
+	    if constexpr (std::has_single_bit(sizeof(V)) and std::has_single_bit(sizeof(R))
+			    and sizeof(V) == V::size() * sizeof(T)
+			    and sizeof(R) == R::size() * sizeof(T)
+			    and not std::same_as<T, bool>)
 	      {
 		using VBuiltin [[gnu::vector_size(sizeof(V))]] = T;
 		using RBuiltin [[gnu::vector_size(sizeof(R))]] = T;
-- 
2.43.0


From af51137e1b1a930fc0b78cd00b37969f5d284ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:28 +0000
Subject: [PATCH 16/20] fix: simd_permute, simd_shift_in and simd_resize of
 std::experimental::simd_mask did not compile

---
 vir/detail.h       | 22 ++++++++++++++++++++++
 vir/simd_permute.h | 10 +++++-----
 vir/simd_resize.h  |  2 +-
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/vir/detail.h b/vir/detail.h
index 914fe42..c6b4015 100644
--- a/vir/detail.h
+++ b/vir/detail.h
@@ -254,6 +254,28 @@ namespace vir::detail
 #endif
     }
 
+  // Equivalent to V(gen). However, simd_mask has no generator constructor in libstdc++.
+  template <typename V, typename G, std::size_t... Is>
+    constexpr V
+    generate_impl(const G& gen, std::index_sequence<Is...>)
+    {
+#if VIR_GLIBCXX_STDX_SIMD
+      if constexpr (stdx::is_simd_mask_v<V>)
+        {
+          V r(false);
+          ((r[Is] = gen(std::integral_constant<std::size_t, Is>())), ...);
+          return r;
+        }
+      else
+#endif
+        return V(gen);
+    }
+
+  template <typename V, typename G>
+    constexpr V
+    generate(const G& gen)
+    { return generate_impl<V>(gen, std::make_index_sequence<V::size()>()); }
+
 #if VIR_HAVE_CONSTEXPR_WRAPPER
   template <int Iterations, auto I = 0, typename F>
     [[gnu::always_inline, gnu::flatten]]
diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index b5aa0ff..4eb594b 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -188,7 +188,8 @@ namespace vir
 
 #if defined __GNUC__
       if (not std::is_constant_evaluated())
-	if constexpr (std::has_single_bit(sizeof(V)) and V::size() <= stdx::native_simd<T>::size())
+	if constexpr (not std::same_as<T, bool>) // not a simd_mask
+	 if constexpr (std::has_single_bit(sizeof(V)) and V::size() <= stdx::native_simd<T>::size())
 	  {
 #if defined __AVX2__
 	    using v4df [[gnu::vector_size(32)]] = double;
@@ -212,8 +213,7 @@ namespace vir
 #if VIR_HAVE_WORKING_SHUFFLEVECTOR
 	    if constexpr (std::has_single_bit(sizeof(V)) and std::has_single_bit(sizeof(R))
 			    and sizeof(V) == V::size() * sizeof(T)
-			    and sizeof(R) == R::size() * sizeof(T)
-			    and not std::same_as<T, bool>)
+			    and sizeof(R) == R::size() * sizeof(T))
 	      {
 		using VBuiltin [[gnu::vector_size(sizeof(V))]] = T;
 		using RBuiltin [[gnu::vector_size(sizeof(R))]] = T;
@@ -255,7 +255,7 @@ namespace vir
 	  }
 #endif // __GNUC__
 
-      return R([&](auto i) -> T {
+      return detail::generate<R>([&](auto i) -> T {
 	       constexpr int j = [&] {
 		 if constexpr (detail::index_permutation_function_nosize<F>)
 		   return idx_perm(i);
@@ -319,7 +319,7 @@ namespace vir
     VIR_ALWAYS_INLINE constexpr V
     simd_shift_in(V const& a, std::convertible_to<V> auto const&... more) noexcept
     {
-      return V([&](auto i) -> typename V::value_type {
+      return detail::generate<V>([&](auto i) -> typename V::value_type {
 	       constexpr int ninputs = 1 + sizeof...(more);
 	       constexpr int w = V::size();
 	       constexpr int j = Offset + int(i);
diff --git a/vir/simd_resize.h b/vir/simd_resize.h
index af5dee6..b6ef6d4 100644
--- a/vir/simd_resize.h
+++ b/vir/simd_resize.h
@@ -29,7 +29,7 @@ namespace vir
     simd_resize(const stdx::simd_mask<T, A>& x)
     {
       constexpr int xn = stdx::simd_size_v<T, A>;
-      return vir::detail::deduced_simd_mask<T, N>([&x](auto i) {
+      return vir::detail::generate<vir::detail::deduced_simd_mask<T, N>>([&x](auto i) -> bool {
                if constexpr (i < xn)
                  return x[i];
                else
-- 
2.43.0


From 09b8b5d13c60cc9e19929c6434732fd2b1f4f5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:47 +0000
Subject: [PATCH 17/20] fix: bitwise operators of
 fixed_size_simd<floating-point> did not compile

---
 vir/simd_float_ops.h | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/vir/simd_float_ops.h b/vir/simd_float_ops.h
index f1c06ac..8649636 100644
--- a/vir/simd_float_ops.h
+++ b/vir/simd_float_ops.h
@@ -11,6 +11,25 @@
 
 namespace vir
 {
+  namespace detail
+  {
+    // bit_cast requires trivially copyable types, which e.g. fixed_size_simd might not be
+    template <typename T, typename A>
+      constexpr bool
+      float_ops_via_bit_cast()
+      {
+        if constexpr (sizeof(T) <= sizeof(long long))
+          {
+            using V = stdx::simd<T, A>;
+            using I = stdx::rebind_simd_t<meta::as_unsigned_t<T>, V>;
+            return sizeof(V) == sizeof(I) and std::is_trivially_copyable_v<V>
+                     and std::is_trivially_copyable_v<I>;
+          }
+        else
+          return false;
+      }
+  }
+
   namespace simd_float_ops
   {
     template <typename T, typename A>
@@ -18,7 +37,7 @@ namespace vir
       operator&(const stdx::simd<detail::FloatingPoint<T>, A> a,
                 const stdx::simd<T, A> b) noexcept
       {
-        if constexpr (sizeof(T) <= sizeof(long long))
+        if constexpr (detail::float_ops_via_bit_cast<T, A>())
           {
             using V = stdx::simd<T, A>;
             using I = stdx::rebind_simd_t<meta::as_unsigned_t<T>, V>;
@@ -36,7 +55,7 @@ namespace vir
       operator|(const stdx::simd<detail::FloatingPoint<T>, A> a,
                 const stdx::simd<T, A> b) noexcept
       {
-        if constexpr (sizeof(T) <= sizeof(long long))
+        if constexpr (detail::float_ops_via_bit_cast<T, A>())
           {
             using V = stdx::simd<T, A>;
             using I = stdx::rebind_simd_t<meta::as_unsigned_t<T>, V>;
@@ -54,7 +73,7 @@ namespace vir
       operator^(const stdx::simd<detail::FloatingPoint<T>, A> a,
                 const stdx::simd<T, A> b) noexcept
       {
-        if constexpr (sizeof(T) <= sizeof(long long))
+        if constexpr (detail::float_ops_via_bit_cast<T, A>())
           {
             using V = stdx::simd<T, A>;
             using I = stdx::rebind_simd_t<meta::as_unsigned_t<T>, V>;
-- 
2.43.0


From 992afdfedf2feaf5d5e573a723043f3e023905fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:09 +0000
Subject: [PATCH 18/20] fix: fake_modify did not compile for objects of less
 than 16 bytes that do not fill a register

---
 vir/simd_benchmarking.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vir/simd_benchmarking.h b/vir/simd_benchmarking.h
index 2f66795..30dfc22 100644
--- a/vir/simd_benchmarking.h
+++ b/vir/simd_benchmarking.h
@@ -39,7 +39,10 @@ namespace vir
 	    fake_modify_one(d);
 #else
 	  // assuming vir::stdx::simd implementation
-	  if constexpr (sizeof(x) < 16)
+	  if constexpr (sizeof(x) < 16 and (sizeof(x) & (sizeof(x) - 1)) != 0)
+	    // there is no register of that size, "+g" is ill-formed
+	    asm volatile("" : "+m"(x));
+	  else if constexpr (sizeof(x) < 16)
 	    asm volatile("" : "+g"(x));
 	  else
 	    asm volatile("" : "+" VIR_SIMD_REG "g,m"(x));
@@ -47,6 +50,8 @@ namespace vir
 	}
       else if constexpr (sizeof(x) >= 16)
 	asm volatile("" : "+" VIR_SIMD_REG "g,m"(x));
+      else if constexpr ((sizeof(x) & (sizeof(x) - 1)) != 0)
+	asm volatile("" : "+m"(x));
       else
 	asm volatile("" : "+g"(x));
     }
-- 
2.43.0


From a21ea125f5184085ce4d99097ccdd80be727a063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:36 +0000
Subject: [PATCH 19/20] fix: native_simd<float> and native_simd<double> with
 AVX but without AVX2 had 32 elements

The conditional operator binds weaker than the division by sizeof(T).
---
 vir/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simd.h b/vir/simd.h
index b33031a..3eef008 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -434,7 +434,7 @@ namespace vir::stdx
 #elif defined __AVX2__
                              32
 #elif defined __AVX__
-                             std::is_floating_point_v<T> ? 32 : 16
+                             (std::is_floating_point_v<T> ? 32 : 16)
 #else
                              16
 #endif
-- 
2.43.0


From 10c61a8cd63a57421eb490f0e0e347e5570044cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:23 +0000
Subject: [PATCH 20/20] fix: simdize of three-member structures did not compile
 with AVX but without AVX2

The permutation path bit_casts all members to/from vectors of N elements, which
is only possible if none of the members exceeds its native_simd width (with AVX
native_simd<int> is half as wide as native_simd<float>).
---
 vir/simdize.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/vir/simdize.h b/vir/simdize.h
index c18c635..1dfc156 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -609,7 +609,8 @@ namespace vir
 		  if constexpr (sizeof(U) == sizeof(vir::struct_element_t<0, T>)
 				  and sizeof(U) == sizeof(vir::struct_element_t<1, T>)
 				  and std::has_single_bit(V0::size())
-				  and V0::size() <= stdx::native_simd<U>::size())
+				  and V0::size() <= stdx::native_simd<U>::size()
+				  and V1::size() <= stdx::native_simd<typename V1::value_type>::size())
 		    {
 		      using V [[gnu::vector_size(sizeof(U) * N)]] = U;
 
@@ -777,7 +778,9 @@ namespace vir
 		  if constexpr (sizeof(U) == sizeof(detail::flat_element_t<0, T>)
 				  and sizeof(U) == sizeof(detail::flat_element_t<1, T>)
 				  and sizeof(U) == sizeof(detail::flat_element_t<2, T>)
-				  and V0::size() <= stdx::native_simd<U>::size())
+				  and V0::size() <= stdx::native_simd<U>::size()
+				  and V1::size() <= stdx::native_simd<typename V1::value_type>::size()
+				  and V2::size() <= stdx::native_simd<typename V2::value_type>::size())
 		    {
 		      using V [[gnu::vector_size(sizeof(U) * N)]] = U;
 
@@ -834,7 +837,7 @@ namespace vir
 			    and detail::is_stored_in_order_v<T>)
 	      {
 		using V0 = detail::flat_element_t<0, tuple_type>;
-		//using V1 = detail::flat_element_t<1, tuple_type>;
+		using V1 = detail::flat_element_t<1, tuple_type>;
 		static_assert(N == V0::size());
 		using U = typename V0::value_type;
 		using V [[gnu::vector_size(sizeof(U) * N)]] = U;
@@ -843,10 +846,12 @@ namespace vir
 		if constexpr (_flat_member_count == 3
 				and V0::size() <= stdx::native_simd<U>::size())
 		  {
-		    //using V2 = detail::flat_element_t<2, tuple_type>;
+		    using V2 = detail::flat_element_t<2, tuple_type>;
 		    if constexpr (sizeof(U) == sizeof(detail::flat_element_t<0, T>)
 				    and sizeof(U) == sizeof(detail::flat_element_t<1, T>)
-				    and sizeof(U) == sizeof(detail::flat_element_t<2, T>))
+				    and sizeof(U) == sizeof(detail::flat_element_t<2, T>)
+				    and V1::size() <= stdx::native_simd<typename V1::value_type>::size()
+				    and V2::size() <= stdx::native_simd<typename V2::value_type>::size())
 		      {
 			// [a0 a1 a2 a3 a4 a5 a6 ...]
 			V a = std::bit_cast<V>(detail::flat_get<0>(_as_base_type()));
-- 
2.43.0

