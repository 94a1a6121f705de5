From fa2948bc1a7d7e21dd54e52bac2cbf180670f139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:44 +0000
Subject: [PATCH 01/17] fix: sign-extend negative products in the SSE4.1
 fixed-point multiply kernels

mul_kernel_s8 and mul_kernel_s16 shifted the widened product logically, so
every negative product saturated to the positive maximum.
---
 src/neo/fixed_point/simd.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neo/fixed_point/simd.hpp b/src/neo/fixed_point/simd.hpp
index c04a7b4..ed5299c 100644
--- a/src/neo/fixed_point/simd.hpp
+++ b/src/neo/fixed_point/simd.hpp
@@ -44,12 +44,12 @@ inline constexpr auto const mul_kernel_s8 = [](__m128i lhs, __m128i rhs) {
     auto const lowLeft    = _mm_cvtepi8_epi16(lhs);
     auto const lowRight   = _mm_cvtepi8_epi16(rhs);
     auto const lowProduct = _mm_mullo_epi16(lowLeft, lowRight);
-    auto const lowShifted = _mm_srli_epi16(lowProduct, FractionalBits);
+    auto const lowShifted = _mm_srai_epi16(lowProduct, FractionalBits);
 
     auto const highLeft    = _mm_cvtepi8_epi16(_mm_srli_si128(lhs, 8));
     auto const highRight   = _mm_cvtepi8_epi16(_mm_srli_si128(rhs, 8));
     auto const highProduct = _mm_mullo_epi16(highLeft, highRight);
-    auto const highShifted = _mm_srli_epi16(highProduct, FractionalBits);
+    auto const highShifted = _mm_srai_epi16(highProduct, FractionalBits);
 
     return _mm_packs_epi16(lowShifted, highShifted);
 };
@@ -62,12 +62,12 @@ inline constexpr auto const mul_kernel_s16 = [](__m128i lhs, __m128i rhs) {
         auto const low_left    = _mm_cvtepi16_epi32(lhs);
         auto const low_right   = _mm_cvtepi16_epi32(rhs);
         auto const low_product = _mm_mullo_epi32(low_left, low_right);
-        auto const low_shifted = _mm_srli_epi32(low_product, FractionalBits);
+        auto const low_shifted = _mm_srai_epi32(low_product, FractionalBits);
 
         auto const high_left    = _mm_cvtepi16_epi32(_mm_srli_si128(lhs, 8));
         auto const high_right   = _mm_cvtepi16_epi32(_mm_srli_si128(rhs, 8));
         auto const high_product = _mm_mullo_epi32(high_left, high_right);
-        auto const high_shifted = _mm_srli_epi32(high_product, FractionalBits);
+        auto const high_shifted = _mm_srai_epi32(high_product, FractionalBits);
 
         return _mm_packs_epi32(low_shifted, high_shifted);
     }
-- 
2.43.0


From 031162f4902260c84415163c2aa2572e9bc1f7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:44 +0000
Subject: [PATCH 02/17] fix: make the q15 SIMD multiply saturate and truncate
 like the scalar operator

mulhrs rounds and wraps -1 * -1 to -1, so multiply() gave other results than
fixed_point's operator* (and than the NEON kernel and the documented formula),
and elements of the vector body differed from those of the scalar tail.
---
 src/neo/fixed_point/simd.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/neo/fixed_point/simd.hpp b/src/neo/fixed_point/simd.hpp
index ed5299c..21ae038 100644
--- a/src/neo/fixed_point/simd.hpp
+++ b/src/neo/fixed_point/simd.hpp
@@ -57,7 +57,10 @@ inline constexpr auto const mul_kernel_s8 = [](__m128i lhs, __m128i rhs) {
 template<int FractionalBits>
 inline constexpr auto const mul_kernel_s16 = [](__m128i lhs, __m128i rhs) {
     if constexpr (FractionalBits == 15) {
-        return _mm_mulhrs_epi16(lhs, rhs);
+        auto const high    = _mm_slli_epi16(_mm_mulhi_epi16(lhs, rhs), 1);
+        auto const low     = _mm_srli_epi16(_mm_mullo_epi16(lhs, rhs), 15);
+        auto const product = _mm_or_si128(high, low);
+        return _mm_xor_si128(product, _mm_cmpeq_epi16(product, _mm_set1_epi16(-32768)));
     } else {
         auto const low_left    = _mm_cvtepi16_epi32(lhs);
         auto const low_right   = _mm_cvtepi16_epi32(rhs);
@@ -79,7 +82,10 @@ inline constexpr auto const mul_kernel_s16 = [](__m128i lhs, __m128i rhs) {
 template<int FractionalBits>
 inline constexpr auto const mul_kernel_avx2_s16 = [](__m256i lhs, __m256i rhs) {
     if constexpr (FractionalBits == 15) {
-        return _mm256_mulhrs_epi16(lhs, rhs);
+        auto const high    = _mm256_slli_epi16(_mm256_mulhi_epi16(lhs, rhs), 1);
+        auto const low     = _mm256_srli_epi16(_mm256_mullo_epi16(lhs, rhs), 15);
+        auto const product = _mm256_or_si256(high, low);
+        return _mm256_xor_si256(product, _mm256_cmpeq_epi16(product, _mm256_set1_epi16(-32768)));
     } else {
         assert(false);
     }
@@ -92,7 +98,11 @@ inline constexpr auto const mul_kernel_avx2_s16 = [](__m256i lhs, __m256i rhs) {
 template<int FractionalBits>
 inline constexpr auto const mul_kernel_avx512_s16 = [](__m512i lhs, __m512i rhs) {
     if constexpr (FractionalBits == 15) {
-        return _mm512_mulhrs_epi16(lhs, rhs);
+        auto const high    = _mm512_slli_epi16(_mm512_mulhi_epi16(lhs, rhs), 1);
+        auto const low     = _mm512_srli_epi16(_mm512_mullo_epi16(lhs, rhs), 15);
+        auto const product = _mm512_or_si512(high, low);
+        auto const wrapped = _mm512_cmpeq_epi16_mask(product, _mm512_set1_epi16(-32768));
+        return _mm512_mask_mov_epi16(product, wrapped, _mm512_set1_epi16(32767));
     } else {
         assert(false);
     }
-- 
2.43.0


From 41f50d4c3a9318517856148aabf3a8f9e8e7abe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:34 +0000
Subject: [PATCH 03/17] fix: clamp before converting a float to fixed point

The float was converted to int32 before saturating, which is undefined (and in
practice gives the minimum) for magnitudes above 2^31 / scale and infinities.
---
 src/neo/fixed_point/fixed_point.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/neo/fixed_point/fixed_point.hpp b/src/neo/fixed_point/fixed_point.hpp
index 8103073..89bb1f3 100644
--- a/src/neo/fixed_point/fixed_point.hpp
+++ b/src/neo/fixed_point/fixed_point.hpp
@@ -20,6 +20,15 @@ constexpr auto saturate(std::int32_t x) -> IntType
     return static_cast<IntType>(std::clamp(x, min_v, max_v));
 }
 
+template<typename IntType>
+constexpr auto saturate(float x) -> IntType
+{
+    // Clamp before the conversion, which is undefined for values the integer cannot hold.
+    auto const min_v = static_cast<float>(std::numeric_limits<IntType>::min());
+    auto const max_v = static_cast<float>(std::numeric_limits<IntType>::max());
+    return static_cast<IntType>(std::clamp(x, min_v, max_v));
+}
+
 }  // namespace detail
 
 struct underlying_value_t
@@ -44,7 +53,7 @@ struct fixed_point
 
     template<std::floating_point Float>
     explicit constexpr fixed_point(Float val) noexcept
-        : _value{detail::saturate<storage_type>(static_cast<std::int32_t>(static_cast<float>(val) * scale))}
+        : _value{detail::saturate<storage_type>(static_cast<float>(val) * scale)}
     {}
 
     constexpr fixed_point([[maybe_unused]] underlying_value_t tag, storage_type val) noexcept : _value{val} {}
-- 
2.43.0


From 91266a89753bbef78d603da778148e4e7107b942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:34 +0000
Subject: [PATCH 04/17] fix: copy from split_complex uses the extent of its
 real part

split_complex has no extent(), so the overload did not compile when used.
---
 src/neo/algorithm/copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neo/algorithm/copy.hpp b/src/neo/algorithm/copy.hpp
index b431dc1..64f6d0c 100644
--- a/src/neo/algorithm/copy.hpp
+++ b/src/neo/algorithm/copy.hpp
@@ -54,7 +54,7 @@ constexpr auto copy(split_complex<InVec> in, OutVec out) noexcept -> void
 
     using Complex = value_type_t<OutVec>;
 
-    for (auto i = std::size_t(0); i < static_cast<std::size_t>(in.extent(0)); ++i) {
+    for (auto i = std::size_t(0); i < static_cast<std::size_t>(in.real.extent(0)); ++i) {
         out[i] = Complex{in.real[i], in.imag[i]};
     }
 }
-- 
2.43.0


From f5db7ac3c15a78455c79918bc21d7bcae4777250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:34 +0000
Subject: [PATCH 05/17] fix: csr_matrix::insert replaces the value of an
 existing element

A second insert at the same position stored a duplicate entry: lookups saw only
the last value, but products such as multiply_add summed all of them.
---
 src/neo/container/csr_matrix.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/neo/container/csr_matrix.hpp b/src/neo/container/csr_matrix.hpp
index c267467..09ebd76 100644
--- a/src/neo/container/csr_matrix.hpp
+++ b/src/neo/container/csr_matrix.hpp
@@ -147,6 +147,11 @@ auto csr_matrix<T, IndexType, ValueContainer, IndexContainer>::insert(index_type
         idx++;
     }
 
+    if (idx < _row_indices[row + 1] && _colum_indices[idx] == col) {
+        _values[idx] = value;
+        return;
+    }
+
     auto const pidx = static_cast<std::ptrdiff_t>(idx);
     _values.insert(std::next(_values.begin(), pidx), value);
     _colum_indices.insert(std::next(_colum_indices.begin(), pidx), col);
-- 
2.43.0


From 24bc845e551b72ec1fe18e801a4d45a751fb2e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:05 +0000
Subject: [PATCH 06/17] fix: radix-2 Stockham plans transform in the requested
 direction

The twiddle tables of c2c_stockham_dif2r_plan and c2c_stockham_dif2i_plan were
swapped, so a forward transform returned the (unscaled) inverse DFT and vice
versa for every size above two.
---
 src/neo/fft/reference/c2c_stockham_dif2_plan.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp b/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp
index 041fa2b..8e5b800 100644
--- a/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp
+++ b/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp
@@ -107,7 +107,7 @@ private:
     {
         auto w = stdex::mdarray<Complex, stdex::dextents<std::size_t, 1>>(n / 2);
         for (std::size_t i = 0; i < w.size(); i++) {
-            w(i) = twiddle<Complex>(n, i, fft::direction::backward);
+            w(i) = twiddle<Complex>(n, i, fft::direction::forward);
         }
         return w;
     }
@@ -194,8 +194,8 @@ private:
     {
         auto w = stdex::mdarray<Complex, stdex::dextents<std::size_t, 2>>{2, n / 2};
         for (std::size_t i = 0; i < w.extent(1); i++) {
-            w(0, i) = twiddle<Complex>(n, i, fft::direction::backward);
-            w(1, i) = twiddle<Complex>(n, i, fft::direction::forward);
+            w(0, i) = twiddle<Complex>(n, i, fft::direction::forward);
+            w(1, i) = twiddle<Complex>(n, i, fft::direction::backward);
         }
         return w;
     }
-- 
2.43.0


From 3f0d3cab943e0216ee334669aab572093002e5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:05 +0000
Subject: [PATCH 07/17] fix: radix-4 butterflies rotate in the direction of the
 transform

c2c_dit4_plan, c2c_dif4_plan and c2c_stockham_dit4_plan subtracted the rotated
term where they had to add it. The butterfly then ran against the twiddles, and
the output was not a DFT in either direction (only the round trip held).
---
 src/neo/fft/reference/c2c_dit4_plan.hpp          | 16 ++++++++--------
 src/neo/fft/reference/c2c_stockham_dit4_plan.hpp |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/neo/fft/reference/c2c_dit4_plan.hpp b/src/neo/fft/reference/c2c_dit4_plan.hpp
index 3a9f7d1..d8c562d 100644
--- a/src/neo/fft/reference/c2c_dit4_plan.hpp
+++ b/src/neo/fft/reference/c2c_dit4_plan.hpp
@@ -88,9 +88,9 @@ private:
                     auto const d3 = (c1 - c3) * z;
 
                     x[i0] = d0 + d2;
-                    x[i1] = d1 - d3;
+                    x[i1] = d1 + d3;
                     x[i2] = -d2 + d0;
-                    x[i3] = d3 + d1;
+                    x[i3] = d1 - d3;
                 }
 
                 for (auto k{1ULL}; k < krange; ++k) {
@@ -114,9 +114,9 @@ private:
                     auto const d3 = (c1 - c3) * z;
 
                     x[i0] = d0 + d2;
-                    x[i1] = d1 - d3;
+                    x[i1] = d1 + d3;
                     x[i2] = -d2 + d0;
-                    x[i3] = d3 + d1;
+                    x[i3] = d1 - d3;
                 }
 
                 base = base + (4UL * krange);
@@ -163,16 +163,16 @@ private:
                     x[i0]         = d0 + d2;
 
                     if (k == 0) {
-                        x[i1] = d1 - (z * d3);
+                        x[i1] = d1 + (z * d3);
                         x[i2] = d0 - d2;
-                        x[i3] = d1 + (z * d3);
+                        x[i3] = d1 - (z * d3);
                     } else {
                         auto w1 = twiddle[1 * k * w_stride];
                         auto w2 = twiddle[2 * k * w_stride];
                         auto w3 = twiddle[3 * k * w_stride];
-                        x[i1]   = (d1 - (z * d3)) * w1;
+                        x[i1]   = (d1 + (z * d3)) * w1;
                         x[i2]   = (d0 - d2) * w2;
-                        x[i3]   = (d1 + (z * d3)) * w3;
+                        x[i3]   = (d1 - (z * d3)) * w3;
                     }
                 }
 
diff --git a/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp b/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp
index 96af1f8..364acea 100644
--- a/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp
+++ b/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp
@@ -81,9 +81,9 @@ struct c2c_stockham_dit4_plan
                     auto const t3 = b - d;
 
                     x[(j + lstar * 0) * r + k] = t0 + t2;
-                    x[(j + lstar * 1) * r + k] = t1 - t3 * i;
+                    x[(j + lstar * 1) * r + k] = t1 + t3 * i;
                     x[(j + lstar * 2) * r + k] = t0 - t2;
-                    x[(j + lstar * 3) * r + k] = t1 + t3 * i;
+                    x[(j + lstar * 3) * r + k] = t1 - t3 * i;
                 }
             }
         }
-- 
2.43.0


From 507625f319987c675076101ba40d8f560d2b0047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:28 +0000
Subject: [PATCH 08/17] fix: radix-2 kernels handle transforms of size one and
 two

Stage 0 read and wrote x[1] of a one-element vector, and c2c_dit2_v4 ran its
only stage twice for two elements (and underflowed order - 1 for one).
---
 src/neo/fft/fallback/fallback_split_fft_plan.hpp |  2 +-
 src/neo/fft/reference/kernel/c2c_dit2.hpp        | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/neo/fft/fallback/fallback_split_fft_plan.hpp b/src/neo/fft/fallback/fallback_split_fft_plan.hpp
index 65c5074..1c83b10 100644
--- a/src/neo/fft/fallback/fallback_split_fft_plan.hpp
+++ b/src/neo/fft/fallback/fallback_split_fft_plan.hpp
@@ -56,7 +56,7 @@ private:
         static constexpr auto const stage_length = 1;  // ipow<2>(0)
         static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-        for (auto k{0}; k < static_cast<int>(size()); k += stride) {
+        for (auto k{0}; k + stage_length < static_cast<int>(size()); k += stride) {
             auto const i1 = k;
             auto const i2 = k + stage_length;
 
diff --git a/src/neo/fft/reference/kernel/c2c_dit2.hpp b/src/neo/fft/reference/kernel/c2c_dit2.hpp
index 1ed0ba7..3c90edb 100644
--- a/src/neo/fft/reference/kernel/c2c_dit2.hpp
+++ b/src/neo/fft/reference/kernel/c2c_dit2.hpp
@@ -30,7 +30,7 @@ struct c2c_dit2_v1
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
@@ -81,7 +81,7 @@ struct c2c_dit2_v2
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
@@ -135,7 +135,7 @@ struct c2c_dit2_v3
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
@@ -184,7 +184,7 @@ struct c2c_dit2_v4
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
@@ -194,7 +194,7 @@ struct c2c_dit2_v4
             }
         }
 
-        for (auto stage{1ULL}; stage < order - 1; ++stage) {
+        for (auto stage{1ULL}; stage + 1 < order; ++stage) {
 
             auto const stage_length = ipow<2ULL>(stage);
             auto const stride       = ipow<2ULL>(stage + 1);
@@ -214,7 +214,7 @@ struct c2c_dit2_v4
             }
         }
 
-        {
+        if (order > 1) {
             // stage = order - 1
             auto const stage_length = size / 2UL;
 
-- 
2.43.0


From 4c06aca89b627a282f91b6ad5aebb2253abfcb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:08 +0000
Subject: [PATCH 09/17] fix: DCT-II plan of size one reads its input

The even/odd split copies pairs, so the single sample was never copied and the
result was computed from the previous contents of the work buffer.
---
 src/neo/fft/dct.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/neo/fft/dct.hpp b/src/neo/fft/dct.hpp
index 728ca98..07680d3 100644
--- a/src/neo/fft/dct.hpp
+++ b/src/neo/fft/dct.hpp
@@ -40,6 +40,10 @@ struct fallback_dct2_plan
         auto const buf = _buffer.to_mdspan();
         assert(len == size());
 
+        if (len == 1) {
+            buf[0] = x[0];
+        }
+
         for (auto i{0U}; i < len / 2U; ++i) {
             auto const src = i * 2U;
             auto const top = len - i - 1;
-- 
2.43.0


From 93c8237971ac3243614395377be113fb68b5b654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:08 +0000
Subject: [PATCH 10/17] fix: experimental c2c kernel stays in bounds for one
 complex element

Stage 0 read and wrote the second element, which rfft_plan of order 1 and
c2c_dit2_plan of order 0 do not have.
---
 src/neo/fft/experimental/rfft.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neo/fft/experimental/rfft.hpp b/src/neo/fft/experimental/rfft.hpp
index bb556bb..436e8d8 100644
--- a/src/neo/fft/experimental/rfft.hpp
+++ b/src/neo/fft/experimental/rfft.hpp
@@ -33,7 +33,7 @@ struct c2c_kernel
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
-- 
2.43.0


From 2e1bfe850e230d8a9af3f080866b0d858502e80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:46 +0000
Subject: [PATCH 11/17] fix: experimental rfft_plan computes the real DFT

The untangling step was written for a kernel with positive exponent, but the
plan's complex kernel uses the negative one in the forward direction. Bins 1 to
n/2 - 1 were wrong for every size above two; only the round trip held.
---
 src/neo/fft/experimental/rfft.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/neo/fft/experimental/rfft.hpp b/src/neo/fft/experimental/rfft.hpp
index 436e8d8..0e8181c 100644
--- a/src/neo/fft/experimental/rfft.hpp
+++ b/src/neo/fft/experimental/rfft.hpp
@@ -156,7 +156,7 @@ struct rfft_plan
         auto const c2    = dir == direction::forward ? Float(-0.5) : Float(0.5);
         auto const theta = [=] {
             auto const t = static_cast<Float>(std::numbers::pi) / static_cast<Float>(n >> 1);
-            return dir == direction::forward ? t : -t;
+            return dir == direction::forward ? -t : t;
         }();
 
         if (dir == direction::forward) {
@@ -190,6 +190,10 @@ struct rfft_plan
             wi             = wi * wpr + tmp * wpi + wi;
         }
 
+        if (n > 2) {
+            x[n / 2 + 1] = -x[n / 2 + 1];
+        }
+
         auto const h1r = x[0];
         if (dir == direction::forward) {
             x[0] = h1r + x[1];
-- 
2.43.0


From 5b6a1b1832ae8c5191b0bbf9755685a08d9dd3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:00 +0000
Subject: [PATCH 12/17] fix: fft_convolver accepts signals and patches of one
 sample

fft_convolve passes any non-empty input on, and the transform handles it, but
the constructor aborted debug builds.
---
 src/neo/convolution/fft_convolver.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neo/convolution/fft_convolver.hpp b/src/neo/convolution/fft_convolver.hpp
index b521373..b45a579 100644
--- a/src/neo/convolution/fft_convolver.hpp
+++ b/src/neo/convolution/fft_convolver.hpp
@@ -21,8 +21,8 @@ struct fft_convolver
 {
     fft_convolver(std::size_t signal_size, std::size_t patch_size) : _signal_size{signal_size}, _patch_size{patch_size}
     {
-        assert(_signal_size > 1);
-        assert(_patch_size > 1);
+        assert(_signal_size > 0);
+        assert(_patch_size > 0);
     }
 
     [[nodiscard]] auto signal_size() const noexcept -> std::size_t { return _signal_size; }
-- 
2.43.0


From 7abd912866fde61f5db7429a2beab100eeae6816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:23 +0000
Subject: [PATCH 13/17] fix: overlap_add_convolver::filter restarts the stream
 position

A new filter resized the buffers but kept the segment index and the position in
the block, so with fewer or smaller segments the next call indexed past their
end, and otherwise started in the middle of a block.
---
 src/neo/convolution/overlap_add_convolver.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/neo/convolution/overlap_add_convolver.hpp b/src/neo/convolution/overlap_add_convolver.hpp
index a15fced..7383057 100644
--- a/src/neo/convolution/overlap_add_convolver.hpp
+++ b/src/neo/convolution/overlap_add_convolver.hpp
@@ -57,6 +57,9 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::filter(in_matrix_of<Complex> a
     _block_size   = f.extent(1) - 1;
     _num_segments = f.extent(0);
 
+    _input_pos       = 0;
+    _current_segment = 0;
+
     _rfft           = fft::rfft_plan<real_type>{fft::from_order, fft::next_order(_block_size * 2U)};
     _complex_window = stdex::mdarray<Complex, stdex::dextents<size_t, 1>>{_rfft.size() / 2 + 1};
     _real_window    = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
-- 
2.43.0


From 979c1c4e8ddf1bbe979ceb448045e55c5fe91c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:23 +0000
Subject: [PATCH 14/17] fix: overlap_add_convolver keeps the input of a partly
 filled block

The output of the inverse transform overwrote the collected input, so calls
whose length is not a multiple of the block size convolved output samples.
---
 src/neo/convolution/overlap_add_convolver.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/neo/convolution/overlap_add_convolver.hpp b/src/neo/convolution/overlap_add_convolver.hpp
index 7383057..2250921 100644
--- a/src/neo/convolution/overlap_add_convolver.hpp
+++ b/src/neo/convolution/overlap_add_convolver.hpp
@@ -40,6 +40,7 @@ private:
 
     fft::rfft_plan<real_type> _rfft{fft::from_order, fft::next_order(size_type(4))};
 
+    stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _input_window{_rfft.size()};
     stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _real_window{_rfft.size()};
     stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _overlap{_rfft.size()};
     stdex::mdarray<Complex, stdex::dextents<size_t, 1>> _complex_window{_rfft.size() / 2 + 1};
@@ -62,6 +63,7 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::filter(in_matrix_of<Complex> a
 
     _rfft           = fft::rfft_plan<real_type>{fft::from_order, fft::next_order(_block_size * 2U)};
     _complex_window = stdex::mdarray<Complex, stdex::dextents<size_t, 1>>{_rfft.size() / 2 + 1};
+    _input_window   = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
     _real_window    = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
     _overlap        = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
 
@@ -79,6 +81,7 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::operator()(inout_vector_of<rea
     auto const num_samples = inout.extent(0);
     auto num_processed     = size_type(0);
 
+    auto input_window    = _input_window.to_mdspan();
     auto real_window     = _real_window.to_mdspan();
     auto complex_window  = _complex_window.to_mdspan();
     auto overlap         = _overlap.to_mdspan();
@@ -90,9 +93,10 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::operator()(inout_vector_of<rea
         auto const num_to_process  = std::min(num_samples - num_processed, _block_size - _input_pos);
 
         auto const sub_inout  = stdex::submdspan(inout, std::tuple{num_processed, num_processed + num_to_process});
+        auto const sub_input  = stdex::submdspan(input_window, std::tuple{_input_pos, _input_pos + num_to_process});
         auto const sub_window = stdex::submdspan(real_window, std::tuple{_input_pos, _input_pos + num_to_process});
-        copy(sub_inout, sub_window);
-        rfft(_rfft, real_window, complex_window);
+        copy(sub_inout, sub_input);
+        rfft(_rfft, input_window, complex_window);
 
         _fdl.insert(complex_window, _current_segment);
 
@@ -129,7 +133,7 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::operator()(inout_vector_of<rea
                 stdex::submdspan(real_window, std::tuple{_block_size, _block_size * 2}),
                 stdex::submdspan(overlap, std::tuple{0, _block_size})
             );
-            fill(real_window, real_type{});
+            fill(input_window, real_type{});
 
             _current_segment = (_current_segment > 0) ? (_current_segment - 1) : (_num_segments - 1);
         }
-- 
2.43.0


From 5fc30916d5b8f310ce8c73f91956239c745ed106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:29 +0000
Subject: [PATCH 15/17] fix: radix-4 plan stays in bounds for a single-element
 transform

---
 src/neo/fft/reference/c2c_dit4_plan.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neo/fft/reference/c2c_dit4_plan.hpp b/src/neo/fft/reference/c2c_dit4_plan.hpp
index d8c562d..c15af7e 100644
--- a/src/neo/fft/reference/c2c_dit4_plan.hpp
+++ b/src/neo/fft/reference/c2c_dit4_plan.hpp
@@ -61,7 +61,7 @@ private:
         auto const z = Complex{Float(0), sign};
 
         auto length   = 4UL;
-        auto w_stride = ipow<size_type(4)>(order - 1UL);
+        auto w_stride = x.size() / 4UL;
         auto krange   = 1UL;
         auto block    = x.size() / 4UL;
         auto base     = 0UL;
@@ -189,7 +189,7 @@ private:
 
     [[nodiscard]] static auto make_twiddle_lut(size_type n)
     {
-        auto kmax  = 3UL * (n / 4UL - 1UL);
+        auto kmax  = n < 4UL ? 0UL : 3UL * (n / 4UL - 1UL);
         auto w     = stdex::mdarray<Complex, stdex::dextents<std::size_t, 2>>{2, n};
         auto w_fwd = stdex::submdspan(w.to_mdspan(), 0, stdex::full_extent);
         auto w_bwd = stdex::submdspan(w.to_mdspan(), 1, stdex::full_extent);
-- 
2.43.0


From d72a886944f522f0e7cb0909f071214aae7977ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:52 +0000
Subject: [PATCH 16/17] fix: overlap_add handles transforms that are not two
 blocks long

---
 src/neo/convolution/overlap_add.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/neo/convolution/overlap_add.hpp b/src/neo/convolution/overlap_add.hpp
index 0472aeb..a6b60eb 100644
--- a/src/neo/convolution/overlap_add.hpp
+++ b/src/neo/convolution/overlap_add.hpp
@@ -47,7 +47,7 @@ private:
 
     stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _window{_rfft.size()};
     stdex::mdarray<complex_type, stdex::dextents<size_t, 1>> _spectrum{_rfft.size() / 2 + 1};
-    stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _overlap{_block_size};
+    stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _overlap{_rfft.size() - _block_size};
 };
 
 template<complex Complex>
@@ -81,7 +81,7 @@ auto overlap_add<Complex>::operator()(inout_vector auto block, auto callback) ->
 
     auto const window   = _window.to_mdspan();
     auto const signal   = stdex::submdspan(window, std::tuple{0, block_size()});
-    auto const padding  = stdex::submdspan(window, std::tuple{block_size(), block_size() * 2U});
+    auto const padding  = stdex::submdspan(window, std::tuple{block_size(), transform_size()});
     auto const spectrum = _spectrum.to_mdspan();
     auto const overlap  = _overlap.to_mdspan();
 
@@ -99,8 +99,12 @@ auto overlap_add<Complex>::operator()(inout_vector auto block, auto callback) ->
     irfft(_rfft, spectrum, window);
     scale(1.0F / static_cast<real_type>(_rfft.size()), window);
 
+    // Add what earlier blocks left over
+    auto const pending = stdex::submdspan(window, std::tuple{size_type(0), transform_size() - block_size()});
+    add(pending, overlap, pending);
+
     // Copy to output
-    add(signal, overlap, block);
+    copy(signal, block);
 
     // Save overlap for next iteration
     copy(padding, overlap);
-- 
2.43.0


From 2211762b3c588533788d953fdac3421a701b3f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:08 +0000
Subject: [PATCH 17/17] fix: overlap_save slides windows that are not a whole
 number of blocks

---
 src/neo/convolution/overlap_save.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/neo/convolution/overlap_save.hpp b/src/neo/convolution/overlap_save.hpp
index fb2ff9e..45c6704 100644
--- a/src/neo/convolution/overlap_save.hpp
+++ b/src/neo/convolution/overlap_save.hpp
@@ -10,7 +10,9 @@
 #include <neo/complex.hpp>
 #include <neo/container/mdspan.hpp>
 #include <neo/fft.hpp>
+#include <neo/math/idiv.hpp>
 
+#include <algorithm>
 #include <cassert>
 #include <functional>
 
@@ -37,13 +39,15 @@ private:
     auto slide_window_left(auto window) -> void
     {
         auto const step      = static_cast<int>(block_size());
-        auto const num_steps = static_cast<int>(window.extent(0)) / step;
+        auto const size      = static_cast<int>(window.extent(0));
+        auto const num_steps = idiv(size, step);
         for (auto i{0}; i < num_steps - 1; ++i) {
             auto const dest_idx = i * step;
             auto const src_idx  = dest_idx + step;
+            auto const count    = std::min(step, size - src_idx);
 
-            auto const src_block  = stdex::submdspan(window, std::tuple{src_idx, src_idx + step});
-            auto const dest_block = stdex::submdspan(window, std::tuple{dest_idx, src_idx});
+            auto const src_block  = stdex::submdspan(window, std::tuple{src_idx, src_idx + count});
+            auto const dest_block = stdex::submdspan(window, std::tuple{dest_idx, dest_idx + count});
             copy(src_block, dest_block);
         }
     }
-- 
2.43.0

