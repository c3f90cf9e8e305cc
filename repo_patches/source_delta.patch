From 281026a0e5c531e9c565bd40c5df60e522fe471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:28 +0000
Subject: [PATCH 01/12] fix: start horizontal min/max reductions at +-infinity

numeric_limits<F>::min() is the smallest positive normal number, so the
maximum of an all-negative buffer and the minimum of an all-positive buffer
were wrong.
---
 simd_horizontal_functions.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/simd_horizontal_functions.hpp b/simd_horizontal_functions.hpp
index 326fe40..0bc96f1 100644
--- a/simd_horizontal_functions.hpp
+++ b/simd_horizontal_functions.hpp
@@ -23,6 +23,7 @@
 #include "vec.hpp"
 
 #include <algorithm>            /* for max */
+#include <limits>               /* for numeric_limits */
 
 #if defined(__GNUC__) && defined(NDEBUG)
 #define always_inline inline  __attribute__((always_inline))
@@ -36,7 +37,7 @@ namespace nova {
 template <typename F>
 inline F horizontal_max_vec(const F * in, unsigned int n)
 {
-    F current = std::numeric_limits<F>::min();
+    F current = -std::numeric_limits<F>::infinity();
     using namespace std;
 
     do {
@@ -49,7 +50,7 @@ inline F horizontal_max_vec(const F * in, unsigned int n)
 template <typename F>
 inline F horizontal_max_vec_simd(const F * in, unsigned int n)
 {
-    F init = std::numeric_limits<F>::min();
+    F init = -std::numeric_limits<F>::infinity();
     vec<F> current(init);
 
     /* loop */
@@ -71,7 +72,7 @@ inline F horizontal_max_vec_simd(const F * in, unsigned int n)
 template <typename F>
 inline F horizontal_min_vec(const F * in, unsigned int n)
 {
-    F current = std::numeric_limits<F>::min();
+    F current = std::numeric_limits<F>::infinity();
     using namespace std;
 
     do {
@@ -84,7 +85,7 @@ inline F horizontal_min_vec(const F * in, unsigned int n)
 template <typename F>
 inline F horizontal_min_vec_simd(const F * in, unsigned int n)
 {
-    F init = std::numeric_limits<F>::min();
+    F init = std::numeric_limits<F>::infinity();
     vec<F> current(init);
 
     /* loop */
@@ -139,8 +140,8 @@ inline F horizontal_sum_vec_simd(const F * in, unsigned int n)
 template <typename F>
 inline void horizontal_minmax_vec(F & rmin, F & rmax, const F * in, unsigned int n)
 {
-    F current_max = std::numeric_limits<F>::min();
-    F current_min = std::numeric_limits<F>::max();
+    F current_max = -std::numeric_limits<F>::infinity();
+    F current_min = std::numeric_limits<F>::infinity();
     using namespace std;
 
     do {
@@ -155,8 +156,8 @@ inline void horizontal_minmax_vec(F & rmin, F & rmax, const F * in, unsigned int
 template <typename F>
 inline void horizontal_minmax_vec_simd(F & rmin, F & rmax, const F * in, unsigned int n)
 {
-    vec<F> current_max(std::numeric_limits<F>::min());
-    vec<F> current_min(std::numeric_limits<F>::max());
+    vec<F> current_max(-std::numeric_limits<F>::infinity());
+    vec<F> current_min(std::numeric_limits<F>::infinity());
 
     /* loop */
     const size_t vec_size = vec<F>::size;
@@ -178,7 +179,7 @@ inline void horizontal_minmax_vec_simd(F & rmin, F & rmax, const F * in, unsigne
 template <typename F>
 inline void horizontal_maxsum_vec(F & rmax, F & rsum, const F * in, unsigned int n)
 {
-    F current_max = std::numeric_limits<F>::min();
+    F current_max = -std::numeric_limits<F>::infinity();
     F current_sum = 0;
     using namespace std;
 
@@ -194,7 +195,7 @@ inline void horizontal_maxsum_vec(F & rmax, F & rsum, const F * in, unsigned int
 template <typename F>
 inline void horizontal_maxsum_vec_simd(F & rmax, F & rsum, const F * in, unsigned int n)
 {
-    vec<F> current_max(std::numeric_limits<F>::min());
+    vec<F> current_max(-std::numeric_limits<F>::infinity());
     vec<F> current_sum(F(0));
 
     /* loop */
-- 
2.43.0


From dae5f822d84f45218aa34d60d48b3972bd3afed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:19 +0000
Subject: [PATCH 02/12] fix: AVX load_first leaves the upper lanes zero

_mm256_castps128_ps256 leaves the upper 128 bits undefined.
---
 vec/vec_avx_double.hpp | 2 +-
 vec/vec_avx_float.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vec/vec_avx_double.hpp b/vec/vec_avx_double.hpp
index 29c6faa..9d33c8a 100644
--- a/vec/vec_avx_double.hpp
+++ b/vec/vec_avx_double.hpp
@@ -142,7 +142,7 @@ public:
     void load_first(const double * data)
     {
         clear();
-        data_ = _mm256_castpd128_pd256(_mm_load_sd(data));
+        data_ = _mm256_insertf128_pd(data_, _mm_load_sd(data), 0);
     }
 
     void store(double * dest) const
diff --git a/vec/vec_avx_float.hpp b/vec/vec_avx_float.hpp
index 350ace8..9c604dc 100644
--- a/vec/vec_avx_float.hpp
+++ b/vec/vec_avx_float.hpp
@@ -148,7 +148,7 @@ public:
     void load_first(const float * data)
     {
         clear();
-        data_ = _mm256_castps128_ps256(_mm_load_ss(data));
+        data_ = _mm256_insertf128_ps(data_, _mm_load_ss(data), 0);
     }
 
     void store(float * dest) const
-- 
2.43.0


From eae57729ff2e175960662cd8501f1851aeabdeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:17 +0000
Subject: [PATCH 03/12] fix: AVX greater / greater-equal comparisons are
 ordered

_CMP_NLE_US and _CMP_NLT_US are true if an operand is NaN, unlike the
scalar code and the other instruction sets.
---
 vec/vec_avx_double.hpp | 8 ++++----
 vec/vec_avx_float.hpp  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/vec/vec_avx_double.hpp b/vec/vec_avx_double.hpp
index 9d33c8a..ec2cb29 100644
--- a/vec/vec_avx_double.hpp
+++ b/vec/vec_avx_double.hpp
@@ -243,8 +243,8 @@ public:
 
     RELATIONAL_OPERATOR(<, _CMP_LT_OS)
     RELATIONAL_OPERATOR(<=, _CMP_LE_OS)
-    RELATIONAL_OPERATOR(>, _CMP_NLE_US)
-    RELATIONAL_OPERATOR(>=, _CMP_NLT_US)
+    RELATIONAL_OPERATOR(>, _CMP_GT_OS)
+    RELATIONAL_OPERATOR(>=, _CMP_GE_OS)
     RELATIONAL_OPERATOR(==, _CMP_EQ_OQ)
     RELATIONAL_OPERATOR(!=, _CMP_NEQ_UQ)
 
@@ -272,8 +272,8 @@ public:
 
     RELATIONAL_MASK_OPERATOR(lt, _CMP_LT_OS)
     RELATIONAL_MASK_OPERATOR(le, _CMP_LE_OS)
-    RELATIONAL_MASK_OPERATOR(gt, _CMP_NLE_US)
-    RELATIONAL_MASK_OPERATOR(ge, _CMP_NLT_US)
+    RELATIONAL_MASK_OPERATOR(gt, _CMP_GT_OS)
+    RELATIONAL_MASK_OPERATOR(ge, _CMP_GE_OS)
     RELATIONAL_MASK_OPERATOR(eq, _CMP_EQ_OQ)
     RELATIONAL_MASK_OPERATOR(neq, _CMP_NEQ_UQ)
 
diff --git a/vec/vec_avx_float.hpp b/vec/vec_avx_float.hpp
index 9c604dc..1c9cfe8 100644
--- a/vec/vec_avx_float.hpp
+++ b/vec/vec_avx_float.hpp
@@ -284,8 +284,8 @@ public:
 
     RELATIONAL_OPERATOR(<, _CMP_LT_OS)
     RELATIONAL_OPERATOR(<=, _CMP_LE_OS)
-    RELATIONAL_OPERATOR(>, _CMP_NLE_US)
-    RELATIONAL_OPERATOR(>=, _CMP_NLT_US)
+    RELATIONAL_OPERATOR(>, _CMP_GT_OS)
+    RELATIONAL_OPERATOR(>=, _CMP_GE_OS)
     RELATIONAL_OPERATOR(==, _CMP_EQ_OQ)
     RELATIONAL_OPERATOR(!=, _CMP_NEQ_UQ)
 #undef RELATIONAL_OPERATOR
@@ -316,8 +316,8 @@ public:
 
     RELATIONAL_MASK_OPERATOR(lt, _CMP_LT_OS)
     RELATIONAL_MASK_OPERATOR(le, _CMP_LE_OS)
-    RELATIONAL_MASK_OPERATOR(gt, _CMP_NLE_US)
-    RELATIONAL_MASK_OPERATOR(ge, _CMP_NLT_US)
+    RELATIONAL_MASK_OPERATOR(gt, _CMP_GT_OS)
+    RELATIONAL_MASK_OPERATOR(ge, _CMP_GE_OS)
     RELATIONAL_MASK_OPERATOR(eq, _CMP_EQ_OQ)
     RELATIONAL_MASK_OPERATOR(neq, _CMP_NEQ_UQ)
 
-- 
2.43.0


From 4230731763d2835638351968903ec9ad2708999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:24 +0000
Subject: [PATCH 04/12] fix: do not truncate the slope of double-precision ramp
 arguments to float

---
 detail/wrap_argument_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/wrap_argument_vector.hpp b/detail/wrap_argument_vector.hpp
index 399dec2..0b1dc47 100644
--- a/detail/wrap_argument_vector.hpp
+++ b/detail/wrap_argument_vector.hpp
@@ -91,7 +91,7 @@ struct vector_ramp_argument
 {
     always_inline vector_ramp_argument(FloatType const & base, FloatType const & slope)
     {
-        float vSlope = data.set_slope(base, slope);
+        FloatType vSlope = data.set_slope(base, slope);
         slope_.set_vec(vSlope);
     }
 
-- 
2.43.0


From e5782e0fe9023959ae112c90d452a349e37338f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:46 +0000
Subject: [PATCH 05/12] fix: make the ramp overloads of addvec and addvec_simd
 compile

The scalar version modified its const argument, the vectorised version
called vec::set without lane index instead of set_vec.
---
 simd_memory.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simd_memory.hpp b/simd_memory.hpp
index ca5430b..9f4b46f 100644
--- a/simd_memory.hpp
+++ b/simd_memory.hpp
@@ -370,8 +370,9 @@ inline void addvec(F * out, const F in, unsigned int n)
 template <typename F>
 inline void addvec(F * out, const F in, const F slope, unsigned int n)
 {
+    F value = in;
     do {
-        *out++ += in; in += slope;
+        *out++ += value; value += slope;
     } while (--n);
 }
 
@@ -460,7 +461,7 @@ inline void addvec_simd(F * out, const F in, const F slope, unsigned int n)
 {
     const int per_loop = vec<F>::objects_per_cacheline;
     vec<F> vin; vin.set_slope(in, slope);
-    vec<F> vslope; vslope.set(slope * vec<F>::size);
+    vec<F> vslope; vslope.set_vec(slope * vec<F>::size);
     n /= per_loop;
     do
     {
@@ -487,7 +488,7 @@ template <unsigned int n, typename F>
 inline void addvec_simd(F * out, const F in, const F slope)
 {
     vec<F> vin; vin.set_slope(in, slope);
-    vec<F> vslope; vslope.set(slope * vec<F>::size);
+    vec<F> vslope; vslope.set_vec(slope * vec<F>::size);
     detail::addvec<F, n>::mp_iteration(out, vin, vslope);
 }
 
-- 
2.43.0


From 0504806c1b6f7da9d22b7b71f5ab42af785da107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:22 +0000
Subject: [PATCH 06/12] fix: copyvec_simd does not read past the end of the
 source

The last unrolled iteration prefetched the vector behind the block.
---
 simd_memory.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/simd_memory.hpp b/simd_memory.hpp
index 9f4b46f..3e7d368 100644
--- a/simd_memory.hpp
+++ b/simd_memory.hpp
@@ -295,10 +295,12 @@ struct copyvec
     {
         vec<F> val;
 
-        if (src_aligned)
-            val.load_aligned(src);
-        else
-            val.load(src);
+        if (n != offset) {
+            if (src_aligned)
+                val.load_aligned(src);
+            else
+                val.load(src);
+        }
 
         store_aligned<dst_aligned>(loaded_value, dst);
         copyvec<F, src_aligned, dst_aligned, n-offset>::mp_iteration(dst+offset, src+offset, val);
-- 
2.43.0


From 9e7f6bacc8ebf98e9a3eb80cf58c7bb4277408bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:51 +0000
Subject: [PATCH 07/12] fix: vec_round_float returns numbers >= 2**23 unchanged

Adding 2**23 to them rounds, so round/floor/ceil/frac were wrong for large
numbers without SSE4.1.
---
 detail/vec_math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/detail/vec_math.hpp b/detail/vec_math.hpp
index faf6be8..b0fb8b9 100644
--- a/detail/vec_math.hpp
+++ b/detail/vec_math.hpp
@@ -61,7 +61,9 @@ always_inline VecType vec_round_float(VecType const & arg)
     const vec two_to_23_ps (0x1.0p23f);
     const vec rounded = (abs_arg + two_to_23_ps) - two_to_23_ps;
 
-    return sign ^ rounded;
+    /* numbers >= 2**23 do not have a fractional part */
+    const vec integral = mask_ge(abs_arg, two_to_23_ps);
+    return select(sign ^ rounded, arg, integral);
 }
 
 template <typename VecType>
-- 
2.43.0


From 3d6ff9998c31e7768f8c9b157c19f1dd0ce824f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:13 +0000
Subject: [PATCH 08/12] fix: trunc for numbers outside the range of long

---
 detail/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/math.hpp b/detail/math.hpp
index 6dca81e..241e18f 100644
--- a/detail/math.hpp
+++ b/detail/math.hpp
@@ -294,7 +294,7 @@ inline double log2(double arg)
 template<typename float_type>
 inline float_type trunc(float_type const & arg)
 {
-    return (float_type)(long)arg;
+    return (arg < 0) ? std::ceil(arg) : std::floor(arg);
 }
 
 
-- 
2.43.0


From 17c838ddc1aac96c170b4fdab89b08f85527e5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:30 +0000
Subject: [PATCH 09/12] fix: horizontal_min/horizontal_max(__m128) take lane 3
 into account

---
 simd_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simd_utils.hpp b/simd_utils.hpp
index c2d008b..75e7533 100644
--- a/simd_utils.hpp
+++ b/simd_utils.hpp
@@ -118,7 +118,7 @@ inline float horizontal_min(__m128 args)
 {
     __m128 xmm0, xmm1;
     xmm0 = args;
-    xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(2,2,2,2));
+    xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(3,2,3,2));
     xmm0 = _mm_min_ps(xmm0, xmm1);
     xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(1,1,1,1));
     xmm0 = _mm_min_ss(xmm0, xmm1);
@@ -129,7 +129,7 @@ inline float horizontal_max(__m128 args)
 {
     __m128 xmm0, xmm1;
     xmm0 = args;
-    xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(2,2,2,2));
+    xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(3,2,3,2));
     xmm0 = _mm_max_ps(xmm0, xmm1);
     xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(1,1,1,1));
     xmm0 = _mm_max_ss(xmm0, xmm1);
-- 
2.43.0


From 73b60ef7c9395d797bda5628e6bf00529478801e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:55 +0000
Subject: [PATCH 10/12] fix: vec_exp_float does not return NaN at the largest
 argument

88.72283905206835f rounds to 88.72283936f, for which exp(x) is rounded to
2**128 and ldexp_float produces NaN.
---
 detail/vec_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/vec_math.hpp b/detail/vec_math.hpp
index b0fb8b9..b6a0fbe 100644
--- a/detail/vec_math.hpp
+++ b/detail/vec_math.hpp
@@ -151,7 +151,7 @@ always_inline VecType vec_exp_float(VecType const & arg)
     VecType approx = ldexp_float(p, n);
 
     /* handle min/max boundaries */
-    const VecType maxlogf(88.72283905206835f);
+    const VecType maxlogf(88.722831726f);
     const VecType minlogf(-88.0f);
     const VecType max_float(std::numeric_limits<float>::max());
     const VecType zero = VecType::gen_zero();
-- 
2.43.0


From c4d577ed14e9518dd03ffbadfb841b0fd99261e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:43 +0000
Subject: [PATCH 11/12] fix: vectorised peak meters accept every multiple of
 the documented block

They processed four vectors per iteration, which is more than
unroll_constraints<F>::samples_per_loop with AVX: the smallest allowed
buffers made the loop counter wrap around, others lost their tail.
---
 simd_peakmeter.hpp | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/simd_peakmeter.hpp b/simd_peakmeter.hpp
index 4cfba27..41d0061 100644
--- a/simd_peakmeter.hpp
+++ b/simd_peakmeter.hpp
@@ -54,27 +54,22 @@ inline F peak_vec(const F * in, F * peak, unsigned int n)
 template <typename F>
 inline F peak_vec_simd(const F * in, F * peak, unsigned int n)
 {
-    vec<F> maximum, abs3;
+    vec<F> maximum, abs1;
     maximum.load_first(peak);
 
     /* loop */
     const size_t vec_size = vec<F>::size;
-    const size_t unroll = 4 * vec_size;
+    const size_t unroll = 2 * vec_size;
     n /= unroll;
     do {
-        vec<F> in0, in1, in2, in3;
+        vec<F> in0, in1;
         in0.load_aligned(in);
         in1.load_aligned(in+vec_size);
-        in2.load_aligned(in+2*vec_size);
-        in3.load_aligned(in+3*vec_size);
 
         vec<F> abs0 = abs(in0);
-        vec<F> abs1 = abs(in1);
-        vec<F> abs2 = abs(in2);
-        abs3 = abs(in3);
+        abs1 = abs(in1);
 
-        vec<F> local_max = max_(max_(abs0, abs1),
-                               max_(abs2, abs3));
+        vec<F> local_max = max_(abs0, abs1);
 
         maximum = max_(maximum, local_max);
         in += unroll;
@@ -84,7 +79,7 @@ inline F peak_vec_simd(const F * in, F * peak, unsigned int n)
     *peak = maximum.horizontal_max();
 
     /* return absolute of last sample */
-    return abs3.get(vec<F>::size - 1);
+    return abs1.get(vec<F>::size - 1);
 }
 
 /* updates peak and squared sum */
@@ -117,29 +112,22 @@ inline void peak_rms_vec_simd(const F * in, F * peak, F * squared_sum, unsigned
 
     /* loop */
     const size_t vec_size = vec<F>::size;
-    const size_t unroll = 4 * vec_size;
+    const size_t unroll = 2 * vec_size;
     n /= unroll;
     do {
-        vec<F> in0, in1, in2, in3;
+        vec<F> in0, in1;
         in0.load_aligned(in);
         in1.load_aligned(in+vec_size);
-        in2.load_aligned(in+2*vec_size);
-        in3.load_aligned(in+3*vec_size);
 
         vec<F> abs0 = abs(in0);
         vec<F> sqr0 = square(in0);
         vec<F> abs1 = abs(in1);
         vec<F> sqr1 = square(in1);
-        vec<F> abs2 = abs(in2);
-        vec<F> sqr2 = square(in2);
-        vec<F> abs3 = abs(in3);
-        vec<F> sqr3 = square(in3);
 
-        vec<F> local_max = max_(max_(abs0, abs1),
-                                max_(abs2, abs3));
+        vec<F> local_max = max_(abs0, abs1);
         maximum = max_(maximum, local_max);
 
-        local_squared_sum += sqr0 + sqr1 + sqr2 + sqr3;
+        local_squared_sum += sqr0 + sqr1;
 
         in += unroll;
     } while(--n);
-- 
2.43.0


From db54a212ed3d104c861bc0a65fd6588bfaa358d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:32 +0000
Subject: [PATCH 12/12] fix: vec_acos_float returns the right value for -0.5

The argument -0.5 took the branch meant for values below -0.5 although
its intermediate results are those of the middle range, and came out as
4.18879 instead of 2.0943951.
---
 detail/vec_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/vec_math.hpp b/detail/vec_math.hpp
index b6a0fbe..8e311d5 100644
--- a/detail/vec_math.hpp
+++ b/detail/vec_math.hpp
@@ -435,7 +435,7 @@ always_inline VecType vec_acos_float(VecType const & arg)
     VecType ret_05_1 = two_asin;
 
     VecType ret_m05_1 = select(ret_m05_05, ret_05_1, mask_gt(arg, half));
-    VecType ret = select(ret_m1_m05, ret_m05_1, mask_gt(arg, -0.5));
+    VecType ret = select(ret_m1_m05, ret_m05_1, mask_ge(arg, -0.5));
 
     // |arg| > 1: return 0
     ret = select(ret, zero, mask_gt(abs_arg, one));
-- 
2.43.0

