From 51915aff246aacdbd1893e3b280eb71bb3453130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:47 +0000
Subject: [PATCH 01/14] fix: copyvec must not read one vector past the end of
 the source

---
 simd_memory.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/simd_memory.hpp b/simd_memory.hpp
index ca5430b..74907c1 100644
--- a/simd_memory.hpp
+++ b/simd_memory.hpp
@@ -295,10 +295,12 @@ struct copyvec
     {
         vec<F> val;
 
-        if (src_aligned)
-            val.load_aligned(src);
-        else
-            val.load(src);
+        if (n != offset) { // nothing left to load after the last vector
+            if (src_aligned)
+                val.load_aligned(src);
+            else
+                val.load(src);
+        }
 
         store_aligned<dst_aligned>(loaded_value, dst);
         copyvec<F, src_aligned, dst_aligned, n-offset>::mp_iteration(dst+offset, src+offset, val);
-- 
2.43.0


From df50b8df8a91c1deda2b5713f209340dddd0f539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:47 +0000
Subject: [PATCH 02/14] fix: horizontal min/max must start from the neutral
 element

---
 simd_horizontal_functions.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/simd_horizontal_functions.hpp b/simd_horizontal_functions.hpp
index 326fe40..183b7b9 100644
--- a/simd_horizontal_functions.hpp
+++ b/simd_horizontal_functions.hpp
@@ -36,7 +36,7 @@ namespace nova {
 template <typename F>
 inline F horizontal_max_vec(const F * in, unsigned int n)
 {
-    F current = std::numeric_limits<F>::min();
+    F current = -std::numeric_limits<F>::infinity();
     using namespace std;
 
     do {
@@ -49,7 +49,7 @@ inline F horizontal_max_vec(const F * in, unsigned int n)
 template <typename F>
 inline F horizontal_max_vec_simd(const F * in, unsigned int n)
 {
-    F init = std::numeric_limits<F>::min();
+    F init = -std::numeric_limits<F>::infinity();
     vec<F> current(init);
 
     /* loop */
@@ -71,7 +71,7 @@ inline F horizontal_max_vec_simd(const F * in, unsigned int n)
 template <typename F>
 inline F horizontal_min_vec(const F * in, unsigned int n)
 {
-    F current = std::numeric_limits<F>::min();
+    F current = std::numeric_limits<F>::infinity();
     using namespace std;
 
     do {
@@ -84,7 +84,7 @@ inline F horizontal_min_vec(const F * in, unsigned int n)
 template <typename F>
 inline F horizontal_min_vec_simd(const F * in, unsigned int n)
 {
-    F init = std::numeric_limits<F>::min();
+    F init = std::numeric_limits<F>::infinity();
     vec<F> current(init);
 
     /* loop */
@@ -139,8 +139,8 @@ inline F horizontal_sum_vec_simd(const F * in, unsigned int n)
 template <typename F>
 inline void horizontal_minmax_vec(F & rmin, F & rmax, const F * in, unsigned int n)
 {
-    F current_max = std::numeric_limits<F>::min();
-    F current_min = std::numeric_limits<F>::max();
+    F current_max = -std::numeric_limits<F>::infinity();
+    F current_min = std::numeric_limits<F>::infinity();
     using namespace std;
 
     do {
@@ -155,8 +155,8 @@ inline void horizontal_minmax_vec(F & rmin, F & rmax, const F * in, unsigned int
 template <typename F>
 inline void horizontal_minmax_vec_simd(F & rmin, F & rmax, const F * in, unsigned int n)
 {
-    vec<F> current_max(std::numeric_limits<F>::min());
-    vec<F> current_min(std::numeric_limits<F>::max());
+    vec<F> current_max(-std::numeric_limits<F>::infinity());
+    vec<F> current_min(std::numeric_limits<F>::infinity());
 
     /* loop */
     const size_t vec_size = vec<F>::size;
@@ -178,7 +178,7 @@ inline void horizontal_minmax_vec_simd(F & rmin, F & rmax, const F * in, unsigne
 template <typename F>
 inline void horizontal_maxsum_vec(F & rmax, F & rsum, const F * in, unsigned int n)
 {
-    F current_max = std::numeric_limits<F>::min();
+    F current_max = -std::numeric_limits<F>::infinity();
     F current_sum = 0;
     using namespace std;
 
@@ -194,7 +194,7 @@ inline void horizontal_maxsum_vec(F & rmax, F & rsum, const F * in, unsigned int
 template <typename F>
 inline void horizontal_maxsum_vec_simd(F & rmax, F & rsum, const F * in, unsigned int n)
 {
-    vec<F> current_max(std::numeric_limits<F>::min());
+    vec<F> current_max(-std::numeric_limits<F>::infinity());
     vec<F> current_sum(F(0));
 
     /* loop */
-- 
2.43.0


From 917c7d9d61561c130fde20da70caab28a6b11bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:47 +0000
Subject: [PATCH 03/14] fix: make the ramped addvec overloads instantiable

---
 simd_memory.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simd_memory.hpp b/simd_memory.hpp
index 74907c1..423c416 100644
--- a/simd_memory.hpp
+++ b/simd_memory.hpp
@@ -370,7 +370,7 @@ inline void addvec(F * out, const F in, unsigned int n)
 }
 
 template <typename F>
-inline void addvec(F * out, const F in, const F slope, unsigned int n)
+inline void addvec(F * out, F in, const F slope, unsigned int n)
 {
     do {
         *out++ += in; in += slope;
@@ -462,7 +462,7 @@ inline void addvec_simd(F * out, const F in, const F slope, unsigned int n)
 {
     const int per_loop = vec<F>::objects_per_cacheline;
     vec<F> vin; vin.set_slope(in, slope);
-    vec<F> vslope; vslope.set(slope * vec<F>::size);
+    vec<F> vslope; vslope.set_vec(slope * vec<F>::size);
     n /= per_loop;
     do
     {
@@ -489,7 +489,7 @@ template <unsigned int n, typename F>
 inline void addvec_simd(F * out, const F in, const F slope)
 {
     vec<F> vin; vin.set_slope(in, slope);
-    vec<F> vslope; vslope.set(slope * vec<F>::size);
+    vec<F> vslope; vslope.set_vec(slope * vec<F>::size);
     detail::addvec<F, n>::mp_iteration(out, vin, vslope);
 }
 
-- 
2.43.0


From a39f2903bd6cc74c94007716278380f3b4091762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:47 +0000
Subject: [PATCH 04/14] fix: do not truncate the slope of double ramps to float

---
 detail/wrap_argument_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/wrap_argument_vector.hpp b/detail/wrap_argument_vector.hpp
index 399dec2..0b1dc47 100644
--- a/detail/wrap_argument_vector.hpp
+++ b/detail/wrap_argument_vector.hpp
@@ -91,7 +91,7 @@ struct vector_ramp_argument
 {
     always_inline vector_ramp_argument(FloatType const & base, FloatType const & slope)
     {
-        float vSlope = data.set_slope(base, slope);
+        FloatType vSlope = data.set_slope(base, slope);
         slope_.set_vec(vSlope);
     }
 
-- 
2.43.0


From a310e470f809eb1ac49d5b57d8d8c32ae6b160ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:47 +0000
Subject: [PATCH 05/14] fix: AVX greater/greater_equal must be false for NaN

---
 vec/vec_avx_double.hpp | 8 ++++----
 vec/vec_avx_float.hpp  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/vec/vec_avx_double.hpp b/vec/vec_avx_double.hpp
index 29c6faa..89f168e 100644
--- a/vec/vec_avx_double.hpp
+++ b/vec/vec_avx_double.hpp
@@ -243,8 +243,8 @@ public:
 
     RELATIONAL_OPERATOR(<, _CMP_LT_OS)
     RELATIONAL_OPERATOR(<=, _CMP_LE_OS)
-    RELATIONAL_OPERATOR(>, _CMP_NLE_US)
-    RELATIONAL_OPERATOR(>=, _CMP_NLT_US)
+    RELATIONAL_OPERATOR(>, _CMP_GT_OS)
+    RELATIONAL_OPERATOR(>=, _CMP_GE_OS)
     RELATIONAL_OPERATOR(==, _CMP_EQ_OQ)
     RELATIONAL_OPERATOR(!=, _CMP_NEQ_UQ)
 
@@ -272,8 +272,8 @@ public:
 
     RELATIONAL_MASK_OPERATOR(lt, _CMP_LT_OS)
     RELATIONAL_MASK_OPERATOR(le, _CMP_LE_OS)
-    RELATIONAL_MASK_OPERATOR(gt, _CMP_NLE_US)
-    RELATIONAL_MASK_OPERATOR(ge, _CMP_NLT_US)
+    RELATIONAL_MASK_OPERATOR(gt, _CMP_GT_OS)
+    RELATIONAL_MASK_OPERATOR(ge, _CMP_GE_OS)
     RELATIONAL_MASK_OPERATOR(eq, _CMP_EQ_OQ)
     RELATIONAL_MASK_OPERATOR(neq, _CMP_NEQ_UQ)
 
diff --git a/vec/vec_avx_float.hpp b/vec/vec_avx_float.hpp
index 350ace8..83d012c 100644
--- a/vec/vec_avx_float.hpp
+++ b/vec/vec_avx_float.hpp
@@ -284,8 +284,8 @@ public:
 
     RELATIONAL_OPERATOR(<, _CMP_LT_OS)
     RELATIONAL_OPERATOR(<=, _CMP_LE_OS)
-    RELATIONAL_OPERATOR(>, _CMP_NLE_US)
-    RELATIONAL_OPERATOR(>=, _CMP_NLT_US)
+    RELATIONAL_OPERATOR(>, _CMP_GT_OS)
+    RELATIONAL_OPERATOR(>=, _CMP_GE_OS)
     RELATIONAL_OPERATOR(==, _CMP_EQ_OQ)
     RELATIONAL_OPERATOR(!=, _CMP_NEQ_UQ)
 #undef RELATIONAL_OPERATOR
@@ -316,8 +316,8 @@ public:
 
     RELATIONAL_MASK_OPERATOR(lt, _CMP_LT_OS)
     RELATIONAL_MASK_OPERATOR(le, _CMP_LE_OS)
-    RELATIONAL_MASK_OPERATOR(gt, _CMP_NLE_US)
-    RELATIONAL_MASK_OPERATOR(ge, _CMP_NLT_US)
+    RELATIONAL_MASK_OPERATOR(gt, _CMP_GT_OS)
+    RELATIONAL_MASK_OPERATOR(ge, _CMP_GE_OS)
     RELATIONAL_MASK_OPERATOR(eq, _CMP_EQ_OQ)
     RELATIONAL_MASK_OPERATOR(neq, _CMP_NEQ_UQ)
 
-- 
2.43.0


From 4d973c4f4335a0f5a88faf54da7c438b36b99541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:47 +0000
Subject: [PATCH 06/14] fix: AVX load_first must clear the upper lanes

---
 vec/vec_avx_double.hpp | 2 +-
 vec/vec_avx_float.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vec/vec_avx_double.hpp b/vec/vec_avx_double.hpp
index 89f168e..ec2cb29 100644
--- a/vec/vec_avx_double.hpp
+++ b/vec/vec_avx_double.hpp
@@ -142,7 +142,7 @@ public:
     void load_first(const double * data)
     {
         clear();
-        data_ = _mm256_castpd128_pd256(_mm_load_sd(data));
+        data_ = _mm256_insertf128_pd(data_, _mm_load_sd(data), 0);
     }
 
     void store(double * dest) const
diff --git a/vec/vec_avx_float.hpp b/vec/vec_avx_float.hpp
index 83d012c..1c9cfe8 100644
--- a/vec/vec_avx_float.hpp
+++ b/vec/vec_avx_float.hpp
@@ -148,7 +148,7 @@ public:
     void load_first(const float * data)
     {
         clear();
-        data_ = _mm256_castps128_ps256(_mm_load_ss(data));
+        data_ = _mm256_insertf128_ps(data_, _mm_load_ss(data), 0);
     }
 
     void store(float * dest) const
-- 
2.43.0


From 98202ae64ecd651ffe9cb3314bcdc51ab091427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:47 +0000
Subject: [PATCH 07/14] fix: vec_round_float must not alter integers above
 2**23

---
 detail/vec_math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/detail/vec_math.hpp b/detail/vec_math.hpp
index faf6be8..11d62a3 100644
--- a/detail/vec_math.hpp
+++ b/detail/vec_math.hpp
@@ -59,7 +59,9 @@ always_inline VecType vec_round_float(VecType const & arg)
     const vec sign    = arg & vec::gen_sign_mask();
     const vec abs_arg = sign ^ arg;
     const vec two_to_23_ps (0x1.0p23f);
-    const vec rounded = (abs_arg + two_to_23_ps) - two_to_23_ps;
+    const vec small_rounded = (abs_arg + two_to_23_ps) - two_to_23_ps;
+    // numbers of 2**23 and above are integers
+    const vec rounded = select(small_rounded, abs_arg, mask_gt(abs_arg, two_to_23_ps));
 
     return sign ^ rounded;
 }
-- 
2.43.0


From 378d70a6a55532689850697c0cb31aceca1f94d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:47 +0000
Subject: [PATCH 08/14] fix: trunc must not overflow for large arguments

---
 detail/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/math.hpp b/detail/math.hpp
index 6dca81e..1ac79e9 100644
--- a/detail/math.hpp
+++ b/detail/math.hpp
@@ -294,7 +294,7 @@ inline double log2(double arg)
 template<typename float_type>
 inline float_type trunc(float_type const & arg)
 {
-    return (float_type)(long)arg;
+    return arg < 0 ? std::ceil(arg) : std::floor(arg);
 }
 
 
-- 
2.43.0


From d11c7353acdf97273a88b64957f31a17114aa519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:47 +0000
Subject: [PATCH 09/14] fix: peak meters must handle lengths that are no
 multiple of four vectors

---
 simd_peakmeter.hpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/simd_peakmeter.hpp b/simd_peakmeter.hpp
index 4cfba27..cd48973 100644
--- a/simd_peakmeter.hpp
+++ b/simd_peakmeter.hpp
@@ -60,8 +60,9 @@ inline F peak_vec_simd(const F * in, F * peak, unsigned int n)
     /* loop */
     const size_t vec_size = vec<F>::size;
     const size_t unroll = 4 * vec_size;
+    unsigned int remaining = (n % unroll) / vec_size;
     n /= unroll;
-    do {
+    while (n--) {
         vec<F> in0, in1, in2, in3;
         in0.load_aligned(in);
         in1.load_aligned(in+vec_size);
@@ -78,7 +79,15 @@ inline F peak_vec_simd(const F * in, F * peak, unsigned int n)
 
         maximum = max_(maximum, local_max);
         in += unroll;
-    } while(--n);
+    }
+
+    while (remaining--) {
+        vec<F> in0;
+        in0.load_aligned(in);
+        abs3 = abs(in0);
+        maximum = max_(maximum, abs3);
+        in += vec_size;
+    }
 
     /* horizonal accumulation */
     *peak = maximum.horizontal_max();
@@ -118,8 +127,9 @@ inline void peak_rms_vec_simd(const F * in, F * peak, F * squared_sum, unsigned
     /* loop */
     const size_t vec_size = vec<F>::size;
     const size_t unroll = 4 * vec_size;
+    unsigned int remaining = (n % unroll) / vec_size;
     n /= unroll;
-    do {
+    while (n--) {
         vec<F> in0, in1, in2, in3;
         in0.load_aligned(in);
         in1.load_aligned(in+vec_size);
@@ -142,7 +152,15 @@ inline void peak_rms_vec_simd(const F * in, F * peak, F * squared_sum, unsigned
         local_squared_sum += sqr0 + sqr1 + sqr2 + sqr3;
 
         in += unroll;
-    } while(--n);
+    }
+
+    while (remaining--) {
+        vec<F> in0;
+        in0.load_aligned(in);
+        maximum = max_(maximum, abs(in0));
+        local_squared_sum += square(in0);
+        in += vec_size;
+    }
 
     /* horizonal accumulation */
     *peak = maximum.horizontal_max();
-- 
2.43.0


From 92ea05ba98bdd9185e8b21cb44aa730d283c2a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:47 +0000
Subject: [PATCH 10/14] fix: horizontal_min/max of __m128 must include the last
 lane

---
 simd_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simd_utils.hpp b/simd_utils.hpp
index c2d008b..add7806 100644
--- a/simd_utils.hpp
+++ b/simd_utils.hpp
@@ -118,7 +118,7 @@ inline float horizontal_min(__m128 args)
 {
     __m128 xmm0, xmm1;
     xmm0 = args;
-    xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(2,2,2,2));
+    xmm1 = _mm_movehl_ps(xmm0, xmm0);
     xmm0 = _mm_min_ps(xmm0, xmm1);
     xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(1,1,1,1));
     xmm0 = _mm_min_ss(xmm0, xmm1);
@@ -129,7 +129,7 @@ inline float horizontal_max(__m128 args)
 {
     __m128 xmm0, xmm1;
     xmm0 = args;
-    xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(2,2,2,2));
+    xmm1 = _mm_movehl_ps(xmm0, xmm0);
     xmm0 = _mm_max_ps(xmm0, xmm1);
     xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(1,1,1,1));
     xmm0 = _mm_max_ss(xmm0, xmm1);
-- 
2.43.0


From 520cdb2fc13999747b011c50836574412dbc4b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:44 +0000
Subject: [PATCH 11/14] fix: softclip of vec<double> must compile for SSE
 without SSE2

The vectorised code needs bitmask operations, which the generic vec<double>
used in SSE-only builds does not provide.
---
 softclip.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/softclip.hpp b/softclip.hpp
index 20a8407..75c8a11 100644
--- a/softclip.hpp
+++ b/softclip.hpp
@@ -79,6 +79,14 @@ struct softclip
 
         return select(alt_ret, arg, selecter);
     }
+
+#ifndef __SSE2__
+    /* without sse2, vec<double> is the generic class, which doesn't provide bitmasks */
+    always_inline vec<double> operator()(vec<double> arg) const
+    {
+        return arg.collect(softclip::s_run<double>);
+    }
+#endif
 #else
     template <typename FloatType>
     always_inline vec<FloatType> operator()(vec<FloatType> arg) const
-- 
2.43.0


From b5a0b0e4237786d91a3c03eb0633e446fec314fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:21 +0000
Subject: [PATCH 12/14] fix: acos(-0.5) must not use the branch for arguments
 below -0.5

mask_gt(arg, -0.5) is false for arg == -0.5, but the range reduction is only applied for |arg| > 0.5: acos(-0.5) was 4.19 instead of 2.09.
---
 detail/vec_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/vec_math.hpp b/detail/vec_math.hpp
index 11d62a3..50cbdac 100644
--- a/detail/vec_math.hpp
+++ b/detail/vec_math.hpp
@@ -435,7 +435,7 @@ always_inline VecType vec_acos_float(VecType const & arg)
     VecType ret_05_1 = two_asin;
 
     VecType ret_m05_1 = select(ret_m05_05, ret_05_1, mask_gt(arg, half));
-    VecType ret = select(ret_m1_m05, ret_m05_1, mask_gt(arg, -0.5));
+    VecType ret = select(ret_m1_m05, ret_m05_1, mask_ge(arg, -0.5));
 
     // |arg| > 1: return 0
     ret = select(ret, zero, mask_gt(abs_arg, one));
-- 
2.43.0


From 82147114178414daf73f160be4de62209565af95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:09 +0000
Subject: [PATCH 13/14] fix: exp must saturate, not return NaN, for the float
 next to log(FLT_MAX)

maxlogf rounds up to 88.722839355..f, for which 2**128 is needed: the exponent overflowed into the NaN encoding.
---
 detail/vec_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/vec_math.hpp b/detail/vec_math.hpp
index 50cbdac..84b0164 100644
--- a/detail/vec_math.hpp
+++ b/detail/vec_math.hpp
@@ -156,7 +156,7 @@ always_inline VecType vec_exp_float(VecType const & arg)
     const VecType max_float(std::numeric_limits<float>::max());
     const VecType zero = VecType::gen_zero();
 
-    VecType too_large = mask_gt(arg, maxlogf);
+    VecType too_large = mask_ge(arg, maxlogf);
     VecType too_small = mask_lt(arg, minlogf);
 
     VecType ret = select(approx, max_float, too_large);
-- 
2.43.0


From 94c5b048728a22686072e1c6563989c209079ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:51 +0000
Subject: [PATCH 14/14] fix: log2 computes its factor in the element type

Before C++11 the scalar log2 multiplied with 1/log(2) rounded to float,
so log2, freq2midi, freq2oct and ratio2midi of double data were only
accurate to about 1.3e-8.
---
 detail/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/math.hpp b/detail/math.hpp
index 1ac79e9..15eced3 100644
--- a/detail/math.hpp
+++ b/detail/math.hpp
@@ -268,7 +268,7 @@ inline float_type log2(float_type arg)
 #if __cplusplus >= 201103L
     return std::log2(arg);
 #else
-    const float rlog2 = 1.f/std::log(2.f);
+    const float_type rlog2 = float_type(1)/std::log(float_type(2));
     return std::log(arg) * rlog2;
 #endif
 }
-- 
2.43.0

