From feb29162ea0c1a77cc178bea57980fcd48426926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 01/49] fix: quadratic extension Karatsuba multiplication with
 an aliased operand (x *= x)

---
 tachyon/math/finite_fields/quadratic_extension_field.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/finite_fields/quadratic_extension_field.h b/tachyon/math/finite_fields/quadratic_extension_field.h
index 2887478..40d8b1f 100644
--- a/tachyon/math/finite_fields/quadratic_extension_field.h
+++ b/tachyon/math/finite_fields/quadratic_extension_field.h
@@ -344,11 +344,15 @@ class QuadraticExtensionField
       // v1 = a.c1 * b.c1
       BaseField v1 = a.c1_ * b.c1_;
 
+      // NOTE: |b| may alias |c|, so this must be read before |c.c1| is written.
+      // v2 = b.c0 + b.c1
+      BaseField v2 = b.c0_ + b.c1_;
+
       // c.c1 = a.c0 + a.c1
       c.c1_ = a.c0_ + a.c1_;
       // c.c1 = (a.c0 + a.c1) * (b.c0 + b.c1)
       // c.c1 = a.c0 * b.c0 + a.c0 * b.c1 + a.c1 * b.c0 + a.c1 * b.c1
-      c.c1_ *= (b.c0_ + b.c1_);
+      c.c1_ *= v2;
       // c.c1 = a.c0 * b.c1 + a.c1 * b.c0 + a.c1 * b.c1
       c.c1_ -= v0;
       // c.c1 = a.c0 * b.c1 + a.c1 * b.c0
-- 
2.43.0


From 2588b15370d1799a83d9b74c216efef91b55cc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 02/49] fix: BigInt::ToNAF drops the carry out of the most
 significant limb

---
 tachyon/math/base/big_int.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/base/big_int.h b/tachyon/math/base/big_int.h
index 881af7a..50b3bc8 100644
--- a/tachyon/math/base/big_int.h
+++ b/tachyon/math/base/big_int.h
@@ -881,6 +881,8 @@ struct BigInt {
     ret.reserve(8 * sizeof(uint64_t) * N);
     while (!v.IsZero()) {
       int8_t z;
+      // The bit carried out of the most significant limb when |z| is -1.
+      uint64_t carry = 0;
       // v = v₀ * 2⁰ + v₁ * 2¹ + v₂ * 2² + ... + vₙ₋₁ * 2ⁿ⁻¹
       // if v₀ == 0:
       //   z = 0
@@ -896,13 +898,14 @@ struct BigInt {
         if (z >= 0) {
           v -= BigInt(z);
         } else {
-          v += BigInt(-z);
+          v.AddInPlace(BigInt(-z), carry);
         }
       } else {
         z = 0;
       }
       ret.push_back(z);
       v.DivBy2InPlace();
+      v.biggest_limb() |= carry << 63;
     }
     return ret;
   }
-- 
2.43.0


From eaaa4d519ce37b270eae50d34a5eb9107a249805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:06 +0000
Subject: [PATCH 03/49] fix: Jacobian doubling on curves with a != 0 computes
 Z3 = 2*(Y1 + Z1) instead of 2*Y1*Z1

---
 .../elliptic_curves/short_weierstrass/jacobian_point_impl.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h b/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h
index 658e880..a3c2fb6 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h
+++ b/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h
@@ -298,7 +298,7 @@ constexpr void CLASS::DoDoubleImpl(const JacobianPoint& a, JacobianPoint& b) {
 
     // Z3 = (Y1 + Z1)² - YY - ZZ
     // Can be calculated as Z3 = 2 * Y1 * Z1, and this is faster.
-    b.z_ = a.y_ + a.z_;
+    b.z_ = a.y_ * a.z_;
     b.z_.DoubleInPlace();
 
     // Y3 = M * (S - X3) - 8 * YYYY
-- 
2.43.0


From ead7ca641995a65fd97aab27894d99a9823bb724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:31 +0000
Subject: [PATCH 04/49] fix: short Weierstrass generator emits uncompilable
 headers for curves without GLV coefficients

---
 .../math/elliptic_curves/short_weierstrass/generator/cpu.h.tpl | 2 +-
 .../elliptic_curves/short_weierstrass/generator/generator.cc   | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/elliptic_curves/short_weierstrass/generator/cpu.h.tpl b/tachyon/math/elliptic_curves/short_weierstrass/generator/cpu.h.tpl
index b7884f6..7a827de 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/generator/cpu.h.tpl
+++ b/tachyon/math/elliptic_curves/short_weierstrass/generator/cpu.h.tpl
@@ -58,9 +58,9 @@ class %{class}CurveConfig {
 %{y_init}
 %{if HasGLVCoefficients}
 %{endomorphism_coefficient_init_code}
-%{endif HasGLVCoefficients}
 %{lambda_init_code}
 %{glv_coeffs_init_code}
+%{endif HasGLVCoefficients}
     VLOG(1) << "%{namespace}::%{class} initialized";
   }
 };
diff --git a/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc b/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc
index 345203d..6f2ae53 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc
+++ b/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc
@@ -126,9 +126,8 @@ int GenerationConfig::GenerateConfigHdr() const {
                                  glv_coefficients[i]);
                            }),
         "\n");
-
-    RemoveOptionalLines(tpl_lines, "HasGLVCoefficients", has_glv_coefficients);
   }
+  RemoveOptionalLines(tpl_lines, "HasGLVCoefficients", has_glv_coefficients);
   tpl_content = absl::StrJoin(tpl_lines, "\n");
   std::string content = absl::StrReplaceAll(tpl_content, replacements);
   return WriteHdr(content, false);
-- 
2.43.0


From c047d432d64cfa3f64e4eac6e845873a627d50db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 05/49] fix: PointXYZZ conversions treat ZZ = 1 as Z = 1
 although ZZZ may be -1

---
 .../math/elliptic_curves/short_weierstrass/point_xyzz.h   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h b/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h
index 80333cf..e2709ad 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h
+++ b/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h
@@ -149,7 +149,7 @@ class PointXYZZ<_Curve,
       const PointXYZZ& point_xyzz = point_xyzzs[i];
       if (point_xyzz.zz_.IsZero()) {
         (*affine_points)[i] = AffinePoint<Curve>::Zero();
-      } else if (point_xyzz.zz_.IsOne()) {
+      } else if (point_xyzz.zz_.IsOne() && point_xyzz.zzz_.IsOne()) {
         (*affine_points)[i] = {point_xyzz.x_, point_xyzz.y_};
       } else {
         const BaseField& z_inv_cubic = zzz_inverses[i];
@@ -199,7 +199,7 @@ class PointXYZZ<_Curve,
   constexpr AffinePoint<Curve> ToAffine() const {
     if (IsZero()) {
       return AffinePoint<Curve>::Zero();
-    } else if (zz_.IsOne()) {
+    } else if (zz_.IsOne() && zzz_.IsOne()) {
       return {x_, y_};
     } else {
       // NOTE(ashjeong): if |zzz_| is 0, |IsZero()| will also evaluate to true,
@@ -216,7 +216,7 @@ class PointXYZZ<_Curve,
   constexpr ProjectivePoint<Curve> ToProjective() const {
     if (IsZero()) {
       return ProjectivePoint<Curve>::Zero();
-    } else if (zz_.IsOne()) {
+    } else if (zz_.IsOne() && zzz_.IsOne()) {
       return {x_, y_, BaseField::One()};
     } else {
       return {x_ * zzz_, y_ * zz_, zz_ * zzz_};
@@ -228,7 +228,7 @@ class PointXYZZ<_Curve,
   constexpr JacobianPoint<Curve> ToJacobian() const {
     if (IsZero()) {
       return JacobianPoint<Curve>::Zero();
-    } else if (zz_.IsOne()) {
+    } else if (zz_.IsOne() && zzz_.IsOne()) {
       return {x_, y_, BaseField::One()};
     } else {
       BaseField z = zz_ * zzz_;
-- 
2.43.0


From 336321afd329b79f48a9257034ebe88088edcdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:20 +0000
Subject: [PATCH 06/49] fix: BigInt::ExtractBits32 reads limbs without
 violating strict aliasing

---
 tachyon/math/base/big_int.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/base/big_int.h b/tachyon/math/base/big_int.h
index 50b3bc8..80862d5 100644
--- a/tachyon/math/base/big_int.h
+++ b/tachyon/math/base/big_int.h
@@ -1024,16 +1024,24 @@ struct BigInt {
       bits = 64;
     }
 
-    const T* limbs_ptr = reinterpret_cast<const T*>(limbs);
+    // NOTE: Accessing |limbs| through a pointer to |uint32_t| would violate the
+    // strict aliasing rule.
+    auto get_limb = [this](size_t i) -> T {
+      if constexpr (std::is_same_v<T, uint32_t>) {
+        return static_cast<T>(limbs[i / 2] >> (32 * (i % 2)));
+      } else {
+        return limbs[i];
+      }
+    };
     size_t limb_idx = bit_offset / bits;
     size_t bit_idx = bit_offset % bits;
 
     T ret;
     if (bit_idx < bits - bit_count || limb_idx == nums - 1) {
-      ret = limbs_ptr[limb_idx] >> bit_idx;
+      ret = get_limb(limb_idx) >> bit_idx;
     } else {
-      ret = (limbs_ptr[limb_idx] >> bit_idx) |
-            (limbs_ptr[1 + limb_idx] << (bits - bit_idx));
+      ret = (get_limb(limb_idx) >> bit_idx) |
+            (get_limb(1 + limb_idx) << (bits - bit_idx));
     }
     T mask = (T{1} << bit_count) - T{1};
     return ret & mask;
-- 
2.43.0


From 82040ac25cb3ddaf1070a6bc1fda9a35ebb79242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:20 +0000
Subject: [PATCH 07/49] fix: gmp::ParseIntoMpz respects the length of the
 string view

---
 tachyon/math/base/gmp/gmp_util.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/base/gmp/gmp_util.cc b/tachyon/math/base/gmp/gmp_util.cc
index c0ecea5..6bb27e8 100644
--- a/tachyon/math/base/gmp/gmp_util.cc
+++ b/tachyon/math/base/gmp/gmp_util.cc
@@ -1,5 +1,7 @@
 #include "tachyon/math/base/gmp/gmp_util.h"
 
+#include <string>
+
 #include "absl/base/call_once.h"
 
 #include "tachyon/base/logging.h"
@@ -34,7 +36,8 @@ bool ParseIntoMpz(std::string_view str, int base, mpz_class* out) {
     base::ConsumePrefix0x(&str);
   }
 
-  return out->set_str(str.data(), base) == 0;
+  // NOTE: |str| may not be null-terminated.
+  return out->set_str(std::string(str), base) == 0;
 }
 
 void MustParseIntoMpz(std::string_view str, int base, mpz_class* out) {
-- 
2.43.0


From 671f9c5dbbdb9c9184097d262ffada04c03b88e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:34 +0000
Subject: [PATCH 08/49] fix: refuse division of the zero polynomial by the zero
 polynomial

---
 .../polynomials/univariate/univariate_polynomial_ops.h | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_polynomial_ops.h b/tachyon/math/polynomials/univariate/univariate_polynomial_ops.h
index ed8e669..665476e 100644
--- a/tachyon/math/polynomials/univariate/univariate_polynomial_ops.h
+++ b/tachyon/math/polynomials/univariate/univariate_polynomial_ops.h
@@ -741,9 +741,6 @@ class UnivariatePolynomialOp<UnivariateSparseCoefficients<F, MaxDegree>> {
   constexpr static std::optional<UnivariatePolynomial<D>> Div(
       const UnivariatePolynomial<S>& self,
       const UnivariatePolynomial<DOrS>& other) {
-    if (self.IsZero()) {
-      return UnivariatePolynomial<D>::Zero();
-    }
     return self.ToDense() / other;
   }
 
@@ -751,9 +748,6 @@ class UnivariatePolynomialOp<UnivariateSparseCoefficients<F, MaxDegree>> {
   constexpr static std::optional<UnivariatePolynomial<D>> Mod(
       const UnivariatePolynomial<S>& self,
       const UnivariatePolynomial<DOrS>& other) {
-    if (self.IsZero()) {
-      return other.ToDense();
-    }
     return self.ToDense() % other;
   }
 
@@ -761,10 +755,6 @@ class UnivariatePolynomialOp<UnivariateSparseCoefficients<F, MaxDegree>> {
   constexpr static std::optional<DivResult<UnivariatePolynomial<D>>> DivMod(
       const UnivariatePolynomial<S>& self,
       const UnivariatePolynomial<DOrS>& other) {
-    if (self.IsZero()) {
-      return DivResult<UnivariatePolynomial<D>>{UnivariatePolynomial<D>::Zero(),
-                                                other.ToDense()};
-    }
     return self.ToDense().DivMod(other);
   }
 
-- 
2.43.0


From 30dafe24271091212a60cb186db52df9086e9185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:34 +0000
Subject: [PATCH 09/49] fix: don't read past the end when folding an odd number
 of coefficients

---
 .../math/polynomials/univariate/univariate_dense_coefficients.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
index 0f60684..0c79a9a 100644
--- a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
+++ b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
@@ -184,7 +184,7 @@ class UnivariateDenseCoefficients {
     std::vector<F> coefficients((size + 1) >> 1);
     base::ParallelizeFill(coefficients, F::Zero(),
                           /*threshold=*/ParallelizeThreshold::kFieldInit);
-    OMP_PARALLEL_FOR(size_t i = 0; i < size; i += 2) {
+    OMP_PARALLEL_FOR(size_t i = 0; i < size - size % 2; i += 2) {
       coefficients[i >> 1] = coefficients_[i + 1] * r;
       coefficients[i >> 1] += coefficients_[i];
     }
-- 
2.43.0


From ac22f4a09df179b0424c2367af62a249a7ee7d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:34 +0000
Subject: [PATCH 10/49] fix: account for coset offsets in filter polynomials

---
 .../polynomials/univariate/univariate_evaluation_domain.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h b/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h
index e911a35..4d62c42 100644
--- a/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h
@@ -404,7 +404,8 @@ class UnivariateEvaluationDomain : public EvaluationDomain<F, MaxDegree> {
                                          subdomain.offset_pow_size_}}));
     SparsePoly subdomain_vanishing_poly =
         subdomain.GetVanishingPolynomial() *
-        SparsePoly(SparseCoeffs({{0, size_as_field_element_}}));
+        SparsePoly(
+            SparseCoeffs({{0, size_as_field_element_ * offset_pow_size_}}));
     std::optional<DivResult<DensePoly>> result =
         domain_vanishing_poly.DivMod(subdomain_vanishing_poly);
     CHECK(result);
@@ -424,9 +425,10 @@ class UnivariateEvaluationDomain : public EvaluationDomain<F, MaxDegree> {
     } else {
       const std::optional<F> div =
           EvaluateVanishingPolynomial(tau) /
-          (size_as_field_element_ * v_subdomain_of_tau);
+          (size_as_field_element_ * offset_pow_size_ * v_subdomain_of_tau);
       if (LIKELY(div)) {
-        return subdomain.size_as_field_element_ * *div;
+        return subdomain.size_as_field_element_ * subdomain.offset_pow_size_ *
+               *div;
       }
       return std::nullopt;
     }
-- 
2.43.0


From a22a071be0e35dae2efe79230abb1c58f870d677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:34 +0000
Subject: [PATCH 11/49] fix: copy the base term of a mixed radix butterfly
 before overwriting it

---
 .../math/polynomials/univariate/mixed_radix_evaluation_domain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
index 5331a8b..3e0420a 100644
--- a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
@@ -249,7 +249,7 @@ class MixedRadixEvaluationDomain
         for (size_t k = 0; k < n; k += q * m) {
           F w_j = F::One();  // ωⱼ is ωₘʲ
           for (size_t j = 0; j < m; ++j) {
-            const F& base_term = a[k + j];
+            const F base_term = a[k + j];
             F w_j_i = w_j;
             for (size_t i = 1; i < q; ++i) {
               terms[i - 1] = a[k + j + i * m];
-- 
2.43.0


From a73516989178f1c268214f318255a5627e0ecdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:34 +0000
Subject: [PATCH 12/49] fix: compute the maximum degree of mixed radix domains

---
 .../math/polynomials/univariate/mixed_radix_evaluation_domain.h | 2 +-
 .../univariate/univariate_evaluation_domain_factory.h           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
index 3e0420a..c8d946a 100644
--- a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
@@ -39,7 +39,7 @@ namespace tachyon::math {
 template <typename F>
 constexpr size_t MaxDegreeForMixedRadixEvaluationDomain() {
   size_t i = 1;
-  for (size_t i = 0; i <= F::Config::kSmallSubgroupAdicity; ++i) {
+  for (size_t j = 0; j < F::Config::kSmallSubgroupAdicity; ++j) {
     i *= F::Config::kSmallSubgroupBase;
   }
   return i * (size_t{1} << F::Config::kTwoAdicity) - 1;
diff --git a/tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h b/tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h
index c82ee5f..f557415 100644
--- a/tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h
+++ b/tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h
@@ -17,7 +17,7 @@ template <typename F>
 constexpr size_t MaxDegreeForEvaluationDomainFactory() {
   size_t i = 1;
   if constexpr (F::Config::kHasLargeSubgroupRootOfUnity) {
-    for (size_t i = 0; i <= F::Config::kSmallSubgroupAdicity; ++i) {
+    for (size_t j = 0; j < F::Config::kSmallSubgroupAdicity; ++j) {
       i *= F::Config::kSmallSubgroupBase;
     }
   }
-- 
2.43.0


From 74da7646378cfca0f06579ada5498e3544e85324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:34 +0000
Subject: [PATCH 13/49] fix: complete a cached packed-only twiddle item when
 all roots are needed

---
 .../univariate/radix2_twiddle_cache.h           | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h b/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h
index d3ae1d9..e4b591d 100644
--- a/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h
+++ b/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h
@@ -34,7 +34,7 @@ class Radix2TwiddleCache {
     // For all finite fields
     std::vector<std::vector<F>> roots_vec;
     std::vector<std::vector<F>> inv_roots_vec;
-    bool packed_vec_only;
+    bool packed_vec_only = false;
 
     // clang-format off
     // Precompute |roots_vec| and |inv_roots_vec| for |OutInHelper()| and |InOutHelper()|.
@@ -100,6 +100,14 @@ class Radix2TwiddleCache {
 
       if (packed_vec_only) return;
 
+      PrepareRemainingRootsVec(domain);
+    }
+
+    // Fill in what was skipped when this was created with |packed_vec_only|.
+    template <typename Domain>
+    void PrepareRemainingRootsVec(const Domain* domain) {
+      packed_vec_only = false;
+
       // Prepare space in each vector for the others.
       size_t size = domain->size() / 2;
       for (size_t i = 1; i < domain->log_size_of_group(); ++i) {
@@ -128,12 +136,15 @@ class Radix2TwiddleCache {
     absl::MutexLock lock(&twiddle_cache->mutex_);
     auto it = twiddle_cache->items_.find(
         std::make_pair(domain->size(), domain->group_gen()));
-    if (it == twiddle_cache->items_.end() ||
-        (it->second->packed_vec_only && !packed_vec_only)) {
+    if (it == twiddle_cache->items_.end()) {
       it = twiddle_cache->items_.insert(
           it,
           std::make_pair(std::make_pair(domain->size(), domain->group_gen()),
                          std::make_unique<Item>(domain, packed_vec_only)));
+    } else if (it->second->packed_vec_only && !packed_vec_only) {
+      // NOTE: |flat_hash_map::insert()| doesn't replace the existing item, and
+      // the existing item may be in use by other domains.
+      it->second->PrepareRemainingRootsVec(domain);
     }
     return it->second.get();
   }
-- 
2.43.0


From 6f5ff29b43e4ace3f54a201cdb638448cb1f9906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:34 +0000
Subject: [PATCH 14/49] fix: forward reverse_at_last in CosetLDEBatch

---
 tachyon/math/polynomials/univariate/radix2_evaluation_domain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h b/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
index aafcf3e..c4e78c7 100644
--- a/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
@@ -123,7 +123,7 @@ class Radix2EvaluationDomain
       const Eigen::MatrixBase<Derived>& mat, size_t added_bits, F shift,
       Eigen::MatrixBase<Derived>& out, bool reverse_at_last = true) const {
     Derived mat_tmp = mat;
-    CosetLDEBatch(std::move(mat_tmp), added_bits, shift, out);
+    CosetLDEBatch(std::move(mat_tmp), added_bits, shift, out, reverse_at_last);
   }
 
   template <typename Derived>
-- 
2.43.0


From bd97a4c9c27924444f09fc30077063933fb1c78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:07 +0000
Subject: [PATCH 15/49] fix: order distinct literals that share their last
 element

---
 .../multivariate/multivariate_sparse_coefficients.h    | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 4aa522e..0a14e38 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -81,11 +81,15 @@ class MultivariateSparseCoefficients {
     }
 
     bool operator<(const Literal& other) const {
-      if (elements.back() == other.elements.back()) {
-        return elements.size() < other.elements.size();
-      } else {
+      if (elements.back() != other.elements.back()) {
         return elements.back() < other.elements.back();
       }
+      if (elements.size() != other.elements.size()) {
+        return elements.size() < other.elements.size();
+      }
+      return std::lexicographical_compare(
+          elements.rbegin(), elements.rend(), other.elements.rbegin(),
+          other.elements.rend());
     }
     bool operator==(const Literal& other) const {
       return (Degree() == 0 && other.Degree() == 0) ||
-- 
2.43.0


From d364ef1782ba458cdc7fb9c72aa3bb6575173217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:07 +0000
Subject: [PATCH 16/49] fix: compact a multivariate polynomial without terms

---
 .../polynomials/multivariate/multivariate_sparse_coefficients.h  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 0a14e38..24e166a 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -305,6 +305,7 @@ class MultivariateSparseCoefficients {
   }
 
   void Compact() {
+    if (terms_.empty()) return;
     auto write_itr = terms_.begin();
     for (auto read_itr = terms_.begin() + 1; read_itr != terms_.end();
          ++read_itr) {
-- 
2.43.0


From 12e723f2b682eae3706eb80f4d6fe019a77c8489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:07 +0000
Subject: [PATCH 17/49] fix: set the number of variables of multivariate sums

---
 .../polynomials/multivariate/multivariate_polynomial_ops.h     | 3 +++
 .../multivariate/multivariate_sparse_coefficients.h            | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h b/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h
index c821869..3899796 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h
@@ -6,6 +6,7 @@
 #ifndef TACHYON_MATH_POLYNOMIALS_MULTIVARIATE_MULTIVARIATE_POLYNOMIAL_OPS_H_
 #define TACHYON_MATH_POLYNOMIALS_MULTIVARIATE_MULTIVARIATE_POLYNOMIAL_OPS_H_
 
+#include <algorithm>
 #include <utility>
 #include <vector>
 
@@ -149,6 +150,8 @@ class MultivariatePolynomialOp<MultivariateSparseCoefficients<F, MaxDegree>> {
       }
     }
 
+    c.coefficients_.num_vars_ =
+        std::max(a.coefficients_.num_vars_, b.coefficients_.num_vars_);
     c.coefficients_.terms_ = std::move(c_terms);
     c.coefficients_.Compact();
   }
diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 24e166a..74f6910 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -351,7 +351,7 @@ class MultivariateSparseCoefficients {
         });
   }
 
-  size_t num_vars_;
+  size_t num_vars_ = 0;
   std::vector<Term> terms_;
 };
 
-- 
2.43.0


From d319ba9d25c7903c2121b03840a43abc5ea02462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:07 +0000
Subject: [PATCH 18/49] fix: evaluate the zero multivariate polynomial at any
 point

---
 .../polynomials/multivariate/multivariate_sparse_coefficients.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 74f6910..5e19341 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -272,10 +272,10 @@ class MultivariateSparseCoefficients {
   }
 
   constexpr F Evaluate(const Point& points) const {
-    CHECK_LE(points.size(), num_vars_) << "Invalid evaluation domain";
     if (IsZero()) {
       return F::Zero();
     }
+    CHECK_LE(points.size(), num_vars_) << "Invalid evaluation domain";
     std::vector<F> results =
         base::ParallelizeMap(terms_, [&points](absl::Span<const Term> chunk) {
           return EvaluateSerial(chunk, points);
-- 
2.43.0


From 929076c11d28428ad007c39a9d762862a2dfd41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:07 +0000
Subject: [PATCH 19/49] fix: compute the degree of a multivariate polynomial
 over all terms

---
 .../multivariate/multivariate_sparse_coefficients.h        | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 5e19341..a1e1f6e 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -267,8 +267,11 @@ class MultivariateSparseCoefficients {
   }
 
   constexpr size_t Degree() const {
-    if (IsConstant()) return 0;
-    return terms_.back().Degree();
+    size_t degree = 0;
+    for (const Term& term : terms_) {
+      degree = std::max(degree, term.Degree());
+    }
+    return degree;
   }
 
   constexpr F Evaluate(const Point& points) const {
-- 
2.43.0


From 012cbe4631e95029b8ad97861fd9f5fe5d6b0b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:07 +0000
Subject: [PATCH 20/49] fix: pad the hexadecimal text of BinaryField64 to 16
 digits

---
 tachyon/math/finite_fields/binary_fields/binary_field.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/finite_fields/binary_fields/binary_field.h b/tachyon/math/finite_fields/binary_fields/binary_field.h
index 56f87fd..c572e6c 100644
--- a/tachyon/math/finite_fields/binary_fields/binary_field.h
+++ b/tachyon/math/finite_fields/binary_fields/binary_field.h
@@ -206,7 +206,7 @@ class BinaryField final : public FiniteField<BinaryField<_Config>> {
     if constexpr (kBits <= 64) {
       std::string str = base::HexToString(value_);
       if (pad_zero) {
-        str = base::ToHexStringWithLeadingZero(str, 8);
+        str = base::ToHexStringWithLeadingZero(str, kBits <= 32 ? 8 : 16);
       }
       return base::MaybePrepend0x(str);
     } else {
-- 
2.43.0


From 106bb367917bc13153a77ca0b9dc2e3032ec50bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:07 +0000
Subject: [PATCH 21/49] fix: make the Poseidon2 parameters of bls12-381 compile

---
 .../param_traits/poseidon2_bls12_381.h        | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bls12_381.h b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bls12_381.h
index 7d91c1d..2ec04a2 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bls12_381.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bls12_381.h
@@ -4,7 +4,7 @@
 #include <array>
 
 #include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_param_traits_forward.h"
-#include "tachyon/math/elliptic_curves/bls12/bls12_318/fr.h"
+#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
 
 namespace tachyon::crypto {
 
@@ -39,29 +39,29 @@ struct Poseidon2ParamsTraits<math::bls12_381::Fr, 3, 5> {
   GetPoseidon2InternalDiagonalArray() {
     return {
         // clang-format off
-        math::bls12_381::Fr::FromHexString("0x07564ad691bf01c8601d68757a561d224f00f313ada673ab83e6255fb4fd5b3d"),
-        math::bls12_381::Fr::FromHexString("0x6184e3be38549f7c0850cd069b32f6decbfde312dd4b8c18349b1b3776a6eaa4"),
-        math::bls12_381::Fr::FromHexString("0x419289088178ad742be6f78425c0156b6546a18fd338f0169937dea46cfb64d2"),
-        math::bls12_381::Fr::FromHexString("0x3244cdec173b71a4659e2529b499362dac10cb2fd17562860c8bb9d0fd45b787"),
+        *math::bls12_381::Fr::FromHexString("0x07564ad691bf01c8601d68757a561d224f00f313ada673ab83e6255fb4fd5b3d"),
+        *math::bls12_381::Fr::FromHexString("0x6184e3be38549f7c0850cd069b32f6decbfde312dd4b8c18349b1b3776a6eaa4"),
+        *math::bls12_381::Fr::FromHexString("0x419289088178ad742be6f78425c0156b6546a18fd338f0169937dea46cfb64d2"),
+        *math::bls12_381::Fr::FromHexString("0x3244cdec173b71a4659e2529b499362dac10cb2fd17562860c8bb9d0fd45b787"),
         // clang-format on
     };
   }
 };
 
 template <>
-struct Poseidon2ParamsTraits<math::bls12_381::Fr, 4, 5> {
-  constexpr static std::array<math::bls12_381::Fr, 5>
+struct Poseidon2ParamsTraits<math::bls12_381::Fr, 7, 5> {
+  constexpr static std::array<math::bls12_381::Fr, 8>
   GetPoseidon2InternalDiagonalArray() {
     return {
         // clang-format off
-        math::bls12_381::Fr::FromHexString("0x1118b610c2544efa26b70d9d60ca6ca362afcfff12436cf3b0f8a3ec5895d9ea"),
-        math::bls12_381::Fr::FromHexString("0x5ba288c5197e71745a8fde16aca575e379dcc19f21042d8b9375e478f809325b"),
-        math::bls12_381::Fr::FromHexString("0x079a987d87d7c80d5f4a3b4018517c50f5067ecb516f6bd14d79eabaa8349e62"),
-        math::bls12_381::Fr::FromHexString("0x4c6497b0b99e1f1af4ec0322dc38869b2dfb79db3ab5fa68936cc8b6025aad1f"),
-        math::bls12_381::Fr::FromHexString("0x483b5c5071e90c98bd353556453f04113442f29a1c4c236b4ca31890136bee4d"),
-        math::bls12_381::Fr::FromHexString("0x3ef76c8bae0aa755dde594d8ec22b157f913323e5b29bbd0652e4b74973ac8f9"),
-        math::bls12_381::Fr::FromHexString("0x091767b280c59a58a39f293bfc22ae944cb921c2efa240262b5b66312724f20b"),
-        math::bls12_381::Fr::FromHexString("0x45ef82a5684137e5fc9613e0581cb65b5ad3d43470eacf0f060e1711c4c57623"),
+        *math::bls12_381::Fr::FromHexString("0x1118b610c2544efa26b70d9d60ca6ca362afcfff12436cf3b0f8a3ec5895d9ea"),
+        *math::bls12_381::Fr::FromHexString("0x5ba288c5197e71745a8fde16aca575e379dcc19f21042d8b9375e478f809325b"),
+        *math::bls12_381::Fr::FromHexString("0x079a987d87d7c80d5f4a3b4018517c50f5067ecb516f6bd14d79eabaa8349e62"),
+        *math::bls12_381::Fr::FromHexString("0x4c6497b0b99e1f1af4ec0322dc38869b2dfb79db3ab5fa68936cc8b6025aad1f"),
+        *math::bls12_381::Fr::FromHexString("0x483b5c5071e90c98bd353556453f04113442f29a1c4c236b4ca31890136bee4d"),
+        *math::bls12_381::Fr::FromHexString("0x3ef76c8bae0aa755dde594d8ec22b157f913323e5b29bbd0652e4b74973ac8f9"),
+        *math::bls12_381::Fr::FromHexString("0x091767b280c59a58a39f293bfc22ae944cb921c2efa240262b5b66312724f20b"),
+        *math::bls12_381::Fr::FromHexString("0x45ef82a5684137e5fc9613e0581cb65b5ad3d43470eacf0f060e1711c4c57623"),
         // clang-format on
     };
   }
-- 
2.43.0


From b34f17f2d3cf281062c05de52350a15991f68e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:07 +0000
Subject: [PATCH 22/49] fix: make the Poseidon2 parameters of pallas compile

---
 .../poseidon2/param_traits/poseidon2_pallas.h | 42 +++++++++----------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_pallas.h b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_pallas.h
index ab8ab65..9bf2f61 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_pallas.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_pallas.h
@@ -11,46 +11,46 @@ namespace tachyon::crypto {
 // This is taken and modified from
 // https://github.com/HorizenLabs/poseidon2/blob/bb476b9/plain_implementations/src/poseidon2/poseidon2_instance_pallas.rs.
 template <>
-struct Poseidon2ParamsTraits<math::Pallas::Fr, 2, 5> {
-  constexpr static std::array<math::Pallas::Fr, 3>
+struct Poseidon2ParamsTraits<math::pallas::Fr, 2, 5> {
+  constexpr static std::array<math::pallas::Fr, 3>
   GetPoseidon2InternalDiagonalArray() {
     return {
-        math::Pallas::Fr(1),
-        math::Pallas::Fr(1),
-        math::Pallas::Fr(2),
+        math::pallas::Fr(1),
+        math::pallas::Fr(1),
+        math::pallas::Fr(2),
     };
   }
 };
 
 template <>
-struct Poseidon2ParamsTraits<math::Pallas::Fr, 3, 5> {
-  constexpr static std::array<math::Pallas::Fr, 4>
+struct Poseidon2ParamsTraits<math::pallas::Fr, 3, 5> {
+  constexpr static std::array<math::pallas::Fr, 4>
   GetPoseidon2InternalDiagonalArray() {
     return {
         // clang-format off
-        math::Pallas::Fr::FromHexString("0x0767b051e5b6358fd12f217aae53bb9dac9a72a9f6a16fdde8f36e715bb27f51"),
-        math::Pallas::Fr::FromHexString("0x2a59f16a37626bdd5536c5546f046b608c777734990103996730611728cfef21"),
-        math::Pallas::Fr::FromHexString("0x2388405f3a1e87a1fd3183bb12a89c71b37555b4db6a4306e1f05322217ee15c"),
-        math::Pallas::Fr::FromHexString("0x0e7c7e19ad92352c35e4d302828f64de68750dac64cbd944f0eba6c0ed003757"),
+        *math::pallas::Fr::FromHexString("0x0767b051e5b6358fd12f217aae53bb9dac9a72a9f6a16fdde8f36e715bb27f51"),
+        *math::pallas::Fr::FromHexString("0x2a59f16a37626bdd5536c5546f046b608c777734990103996730611728cfef21"),
+        *math::pallas::Fr::FromHexString("0x2388405f3a1e87a1fd3183bb12a89c71b37555b4db6a4306e1f05322217ee15c"),
+        *math::pallas::Fr::FromHexString("0x0e7c7e19ad92352c35e4d302828f64de68750dac64cbd944f0eba6c0ed003757"),
         // clang-format on
     };
   }
 };
 
 template <>
-struct Poseidon2ParamsTraits<math::Pallas::Fr, 7, 5> {
-  constexpr static std::array<math::Pallas::Fr, 8>
+struct Poseidon2ParamsTraits<math::pallas::Fr, 7, 5> {
+  constexpr static std::array<math::pallas::Fr, 8>
   GetPoseidon2InternalDiagonalArray() {
     return {
         // clang-format off
-        math::Pallas::Fr::FromHexString("0x2527e8a83e49ae6bf3c8e459d5220e34d84aa49ce14f2dc401273cebdec65067"),
-        math::Pallas::Fr::FromHexString("0x0e4a24b206b7494d2437d3e0fd1deeae8a943ccd836e0f959aaeccebb3068859"),
-        math::Pallas::Fr::FromHexString("0x03c9638e9b8ad067e7033ed3aef5e185fcfa3959f82283bbf00c1bf0ea40fe45"),
-        math::Pallas::Fr::FromHexString("0x09f7633edc22a16de93a8676260b507aa44aa8c57565bc5d21543897be56c100"),
-        math::Pallas::Fr::FromHexString("0x06dfc4a91b7acb8ef203a8bc6b850290b1e272a594512ac0d1c9d3a56c8a7921"),
-        math::Pallas::Fr::FromHexString("0x020e0af80c2a8e2aab6dcf5d8e94e71d24156e3123a16fdf8fd80471776e3551"),
-        math::Pallas::Fr::FromHexString("0x24dfd0278f203a55322e94b290ae4269bbe76aa5531921f5f87a8d2d736dbb9c"),
-        math::Pallas::Fr::FromHexString("0x08aa91c42dea2206ff4e601a1f49c009d18acc891ccb78529856db2a49664b2d"),
+        *math::pallas::Fr::FromHexString("0x2527e8a83e49ae6bf3c8e459d5220e34d84aa49ce14f2dc401273cebdec65067"),
+        *math::pallas::Fr::FromHexString("0x0e4a24b206b7494d2437d3e0fd1deeae8a943ccd836e0f959aaeccebb3068859"),
+        *math::pallas::Fr::FromHexString("0x03c9638e9b8ad067e7033ed3aef5e185fcfa3959f82283bbf00c1bf0ea40fe45"),
+        *math::pallas::Fr::FromHexString("0x09f7633edc22a16de93a8676260b507aa44aa8c57565bc5d21543897be56c100"),
+        *math::pallas::Fr::FromHexString("0x06dfc4a91b7acb8ef203a8bc6b850290b1e272a594512ac0d1c9d3a56c8a7921"),
+        *math::pallas::Fr::FromHexString("0x020e0af80c2a8e2aab6dcf5d8e94e71d24156e3123a16fdf8fd80471776e3551"),
+        *math::pallas::Fr::FromHexString("0x24dfd0278f203a55322e94b290ae4269bbe76aa5531921f5f87a8d2d736dbb9c"),
+        *math::pallas::Fr::FromHexString("0x08aa91c42dea2206ff4e601a1f49c009d18acc891ccb78529856db2a49664b2d"),
         // clang-format on
     };
   }
-- 
2.43.0


From 969c4b906e9bfc9de45d3331de041a7871de1636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:07 +0000
Subject: [PATCH 23/49] fix: permute when a squeeze of kRate elements crosses a
 block boundary

---
 tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h b/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
index e68f8b3..68c7ca4 100644
--- a/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
+++ b/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
@@ -227,9 +227,7 @@ struct PoseidonSpongeBase : public FieldBasedCryptographicSponge<Derived> {
             state[Params::kCapacity + rate_start_index + i];
       }
 
-      if (output_remaining_size != Params::kRate) {
-        derived.Permute(state);
-      }
+      derived.Permute(state);
       output_idx += num_elements_squeezed;
       rate_start_index = 0;
     }
-- 
2.43.0


From b4e0525597ebcc48baa8b5cbd3123ea5cf793332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:00 +0000
Subject: [PATCH 24/49] fix: keep the internal shifts when a Poseidon2Config is
 serialised

---
 .../hashes/sponge/poseidon2/poseidon2_config.h      | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
index ca0dfea..512f7b9 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
@@ -166,25 +166,30 @@ class Copyable<crypto::Poseidon2Config<Params>> {
                       Buffer* buffer) {
     return Copyable<crypto::PoseidonConfigBase<Params>>::WriteTo(config,
                                                                  buffer) &&
-           buffer->WriteMany(config.internal_diagonal_minus_one);
+           buffer->WriteMany(config.internal_diagonal_minus_one,
+                             config.internal_shifts);
   }
 
   static bool ReadFrom(const ReadOnlyBuffer& buffer,
                        crypto::Poseidon2Config<Params>* config) {
     crypto::PoseidonConfigBase<Params> base;
-    math::Matrix<F> internal_diagonal_minus_one;
-    if (!buffer.ReadMany(&base, &internal_diagonal_minus_one)) {
+    math::Vector<F> internal_diagonal_minus_one;
+    math::Vector<uint8_t> internal_shifts;
+    if (!buffer.ReadMany(&base, &internal_diagonal_minus_one,
+                         &internal_shifts)) {
       return false;
     }
 
     *config = {std::move(base), std::move(internal_diagonal_minus_one)};
+    config->internal_shifts = std::move(internal_shifts);
     return true;
   }
 
   static size_t EstimateSize(const crypto::Poseidon2Config<Params>& config) {
     const crypto::PoseidonConfigBase<Params>& base =
         static_cast<const crypto::PoseidonConfigBase<Params>&>(config);
-    return base::EstimateSize(base, config.internal_diagonal_minus_one);
+    return base::EstimateSize(base, config.internal_diagonal_minus_one,
+                              config.internal_shifts);
   }
 };
 
-- 
2.43.0


From 794dc9f6424891b46146b51a7820d4a631be4973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:17 +0000
Subject: [PATCH 25/49] fix: internal diagonal of Poseidon2 over BabyBear with
 width 24

---
 .../param_traits/poseidon2_baby_bear.h        | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h
index 372fe66..09e25c3 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h
@@ -37,14 +37,18 @@ struct Poseidon2ParamsTraits<math::BabyBear, 23, 7> {
   constexpr static std::array<math::BabyBear, 24>
   GetPoseidon2InternalDiagonalArray() {
     return {
-        math::BabyBear{0x0a632d94}, math::BabyBear{0x6db657b7},
-        math::BabyBear{0x56fbdc9e}, math::BabyBear{0x052b3d8a},
-        math::BabyBear{0x33745201}, math::BabyBear{0x5c03108c},
-        math::BabyBear{0x0beba37b}, math::BabyBear{0x258c2e8b},
-        math::BabyBear{0x12029f39}, math::BabyBear{0x694909ce},
-        math::BabyBear{0x6d231724}, math::BabyBear{0x21c3b222},
-        math::BabyBear{0x3c0904a5}, math::BabyBear{0x01d6acda},
-        math::BabyBear{0x27705c83}, math::BabyBear{0x5231c802},
+        math::BabyBear{0x409133f0}, math::BabyBear{0x1667a8a1},
+        math::BabyBear{0x06a6c7b6}, math::BabyBear{0x6f53160e},
+        math::BabyBear{0x273b11d1}, math::BabyBear{0x03176c5d},
+        math::BabyBear{0x72f9bbf9}, math::BabyBear{0x73ceba91},
+        math::BabyBear{0x5cdef81d}, math::BabyBear{0x01393285},
+        math::BabyBear{0x46daee06}, math::BabyBear{0x065d7ba6},
+        math::BabyBear{0x52d72d6f}, math::BabyBear{0x05dd05e0},
+        math::BabyBear{0x3bab4b63}, math::BabyBear{0x6ada3842},
+        math::BabyBear{0x2fc5fbec}, math::BabyBear{0x770d61b0},
+        math::BabyBear{0x5715aae9}, math::BabyBear{0x03ef0e90},
+        math::BabyBear{0x75b6c770}, math::BabyBear{0x242adf5f},
+        math::BabyBear{0x00d0ca4c}, math::BabyBear{0x36c0e388},
     };
   }
   constexpr static std::array<uint8_t, 23> GetPoseidon2InternalShiftArray() {
-- 
2.43.0


From adccf2149f1a7f8381726d2112f73ee0e8341c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:17 +0000
Subject: [PATCH 26/49] fix: binary Merkle trees with one leaf or one leaf per
 subtree

---
 .../merkle_tree/binary_merkle_tree/binary_merkle_tree.h       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h b/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
index 7b5036f..3d44a70 100644
--- a/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
+++ b/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
@@ -143,13 +143,13 @@ class BinaryMerkleTree final
   }
 
   void BuildTreeFromLeaves(base::Range<size_t> range) const {
-    while (range.GetSize() > 0) {
+    while (range.GetSize() > 1) {
       for (size_t i = range.from; i < range.to; i += 2) {
         storage_->SetHash(i >> 1,
                           hasher_->ComputeParentHash(storage_->GetHash(i),
                                                      storage_->GetHash(i + 1)));
       }
-      range = base::Range<size_t>(range.from >> 1, (range.to >> 1) - 1);
+      range = base::Range<size_t>(range.from >> 1, range.to >> 1);
     }
   }
 
-- 
2.43.0


From 876a9ab5135057c22f6eeaf2d977135c9a25cf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:58 +0000
Subject: [PATCH 27/49] fix: size the result of MulMatVec by the rows of the
 matrix

---
 tachyon/math/matrix/matrix_operations.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/matrix/matrix_operations.h b/tachyon/math/matrix/matrix_operations.h
index 19fe5a6..b47b2a8 100644
--- a/tachyon/math/matrix/matrix_operations.h
+++ b/tachyon/math/matrix/matrix_operations.h
@@ -42,7 +42,7 @@ math::Vector<F> MulMatVec(const Eigen::MatrixBase<Derived>& matrix,
                           const Eigen::MatrixBase<Derived2>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   OMP_PARALLEL_FOR(Eigen::Index i = 0; i < matrix.rows(); ++i) {
     for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
       ret[i] += matrix(i, j) * vector[j];
@@ -57,7 +57,7 @@ math::Vector<F> MulMatVecSerial(const Eigen::MatrixBase<Derived>& matrix,
                                 const Eigen::MatrixBase<Derived2>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   for (Eigen::Index i = 0; i < matrix.rows(); ++i) {
     for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
       ret[i] += matrix(i, j) * vector[j];
@@ -73,7 +73,7 @@ math::Vector<F> MulMatVec(
     const Eigen::DenseCoeffsBase<Derived2, Level>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   if (vector.rows() == 1) {
     OMP_PARALLEL_FOR(Eigen::Index i = 0; i < matrix.rows(); ++i) {
       for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
@@ -99,7 +99,7 @@ math::Vector<F> MulMatVecSerial(
     const Eigen::DenseCoeffsBase<Derived2, Level>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   if (vector.rows() == 1) {
     for (Eigen::Index i = 0; i < matrix.rows(); ++i) {
       for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
-- 
2.43.0


From 8c7e73076de4d068b743611f876e143c8b011f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:58 +0000
Subject: [PATCH 28/49] fix: handle empty rows and empty matrices in sparse
 matrix MaxCols

---
 tachyon/math/matrix/sparse/sparse_matrix.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tachyon/math/matrix/sparse/sparse_matrix.h b/tachyon/math/matrix/sparse/sparse_matrix.h
index ae4f9bc..3bd6623 100644
--- a/tachyon/math/matrix/sparse/sparse_matrix.h
+++ b/tachyon/math/matrix/sparse/sparse_matrix.h
@@ -97,11 +97,12 @@ class ELLSparseMatrix {
 
   // NOTE: Returns a valid value when |this| is sorted.
   size_t MaxCols() const {
-    auto it = std::max_element(elements_list_.begin(), elements_list_.end(),
-                               [](const Elements& a, const Elements& b) {
-                                 return a.back().index < b.back().index;
-                               });
-    return it->back().index + 1;
+    size_t max_cols = 0;
+    for (const Elements& elements : elements_list_) {
+      if (elements.empty()) continue;
+      max_cols = std::max(max_cols, elements.back().index + 1);
+    }
+    return max_cols;
   }
 
   size_t NonZeros() const {
@@ -250,6 +251,7 @@ class CSRSparseMatrix {
     auto it = std::max_element(
         elements_.begin(), elements_.end(),
         [](const Element& a, const Element& b) { return a.index < b.index; });
+    if (it == elements_.end()) return 0;
     return it->index + 1;
   }
 
-- 
2.43.0


From 81bfe4a0489dc5c4cbe68df94662b0e85c3c00cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:08 +0000
Subject: [PATCH 29/49] fix: include the KoalaBear extension headers from their
 own directory

---
 tachyon/math/finite_fields/koala_bear/koala_bear4.h        | 4 ++--
 tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/finite_fields/koala_bear/koala_bear4.h b/tachyon/math/finite_fields/koala_bear/koala_bear4.h
index 7371e9a..caa10f9 100644
--- a/tachyon/math/finite_fields/koala_bear/koala_bear4.h
+++ b/tachyon/math/finite_fields/koala_bear/koala_bear4.h
@@ -1,8 +1,8 @@
 #ifndef TACHYON_MATH_FINITE_FIELDS_KOALA_BEAR_KOALA_BEAR4_H_
 #define TACHYON_MATH_FINITE_FIELDS_KOALA_BEAR_KOALA_BEAR4_H_
 
-#include "tachyon/math/finite_fields/baby_bear/internal/koala_bear4.h"
-#include "tachyon/math/finite_fields/baby_bear/internal/packed_koala_bear4.h"
+#include "tachyon/math/finite_fields/koala_bear/internal/koala_bear4.h"
+#include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear4.h"
 
 namespace tachyon::math {
 
diff --git a/tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h b/tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h
index 09e3c97..7a6f451 100644
--- a/tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h
+++ b/tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h
@@ -1,7 +1,7 @@
 #ifndef TACHYON_MATH_FINITE_FIELDS_KOALA_BEAR_PACKED_KOALA_BEAR4_H_
 #define TACHYON_MATH_FINITE_FIELDS_KOALA_BEAR_PACKED_KOALA_BEAR4_H_
 
-#include "tachyon/math/finite_fields/baby_bear/internal/packed_koala_bear4.h"
+#include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear4.h"
 
 namespace tachyon::math {
 
-- 
2.43.0


From c21f894ec563602d418cc907e31e8c2eb19afc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:55 +0000
Subject: [PATCH 30/49] fix: leave the zero variable out of the R1CS matrix
 rows

---
 tachyon/zk/r1cs/constraint_system/constraint_system.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/zk/r1cs/constraint_system/constraint_system.h b/tachyon/zk/r1cs/constraint_system/constraint_system.h
index 5950f87..25babf1 100644
--- a/tachyon/zk/r1cs/constraint_system/constraint_system.h
+++ b/tachyon/zk/r1cs/constraint_system/constraint_system.h
@@ -78,7 +78,7 @@ class ConstraintSystem {
   std::vector<Cell<F>> MakeRow(const LinearCombination<F>& lc) const {
     std::vector<Cell<F>> row;
     for (const Term<F>& term : lc.terms()) {
-      if (!term.coefficient.IsZero()) {
+      if (!term.coefficient.IsZero() && !term.variable.IsZero()) {
         row.push_back({term.coefficient,
                        *term.variable.GetIndex(num_instance_variables_)});
       }
-- 
2.43.0


From a8dae42542d0f3fbe438be2af931d0eacb20745e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:55 +0000
Subject: [PATCH 31/49] fix: size the R1CS use counts by the number of linear
 combinations

---
 tachyon/zk/r1cs/constraint_system/constraint_system.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/zk/r1cs/constraint_system/constraint_system.h b/tachyon/zk/r1cs/constraint_system/constraint_system.h
index 25babf1..024d746 100644
--- a/tachyon/zk/r1cs/constraint_system/constraint_system.h
+++ b/tachyon/zk/r1cs/constraint_system/constraint_system.h
@@ -160,7 +160,7 @@ class ConstraintSystem {
   // constraint system
   std::vector<size_t> ComputeLCNumTimesUsed(bool count_sinks) const {
     std::vector<size_t> num_times_used;
-    num_times_used.resize(lc_map_.size());
+    num_times_used.resize(num_linear_combinations_);
 
     for (const std::pair<const size_t, LinearCombination<F>>& entry : lc_map_) {
       num_times_used[entry.first] += size_t{count_sinks};
-- 
2.43.0


From de1d727c09d97f936a0a89788098d8c8a301c5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:55 +0000
Subject: [PATCH 32/49] fix: require QAP domains to hold the instance rows

---
 .../r1cs/constraint_system/quadratic_arithmetic_program.h   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h b/tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h
index a35758f..9be6897 100644
--- a/tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h
+++ b/tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h
@@ -50,7 +50,8 @@ class QuadraticArithmeticProgram {
                                              const ConstraintSystem<F>& cs,
                                              const F& x) {
     TRACE_EVENT("ProofGeneration", "QAP::InstanceMap");
-    CHECK_GE(domain->size(), cs.num_constraints());
+    CHECK_GE(domain->size(),
+             cs.num_constraints() + cs.num_instance_variables());
     std::optional<ConstraintMatrices<F>> matrices = cs.ToMatrices();
     // |num_constraint| = n
     size_t num_constraints = cs.num_constraints();
@@ -133,7 +134,8 @@ class QuadraticArithmeticProgram {
     using Evals = typename Domain::Evals;
     using DensePoly = typename Domain::DensePoly;
 
-    CHECK_GE(domain->size(), matrices.num_constraints);
+    CHECK_GE(domain->size(),
+             matrices.num_constraints + matrices.num_instance_variables);
 
     std::vector<F> a(domain->size());
     std::vector<F> b(domain->size());
-- 
2.43.0


From 1e97fa60c51ffcb385b038f9f9dd6cd2f6a827ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:21 +0000
Subject: [PATCH 33/49] fix: read both GLV scalars from the same bit position
 in GLV::Mul

---
 tachyon/math/elliptic_curves/msm/glv.h | 36 +++++++++++++-------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/tachyon/math/elliptic_curves/msm/glv.h b/tachyon/math/elliptic_curves/msm/glv.h
index a9925d2..d06301a 100644
--- a/tachyon/math/elliptic_curves/msm/glv.h
+++ b/tachyon/math/elliptic_curves/msm/glv.h
@@ -6,7 +6,11 @@
 #ifndef TACHYON_MATH_ELLIPTIC_CURVES_MSM_GLV_H_
 #define TACHYON_MATH_ELLIPTIC_CURVES_MSM_GLV_H_
 
-#include "tachyon/math/base/bit_iterator.h"
+#include <stddef.h>
+#include <stdint.h>
+
+#include <algorithm>
+
 #include "tachyon/math/base/gmp/bit_traits.h"
 #include "tachyon/math/base/gmp/signed_value.h"
 #include "tachyon/math/elliptic_curves/semigroups.h"
@@ -84,36 +88,32 @@ class GLV {
 
     RetPoint b1b2 = b1 + b2;
 
-    auto k1_begin = BitIteratorBE<mpz_class>::begin(&result.k1.abs_value);
-    auto k1_end = BitIteratorBE<mpz_class>::end(&result.k1.abs_value);
-    auto k2_begin = BitIteratorBE<mpz_class>::begin(&result.k2.abs_value);
+    // NOTE: |k1| and |k2| may have different numbers of bits, so both are read
+    // from the same bit position, the highest one of the longer of the two.
+    const mpz_class& k1 = result.k1.abs_value;
+    const mpz_class& k2 = result.k2.abs_value;
+    size_t num_bits = std::max(BitTraits<mpz_class>::GetNumBits(k1),
+                               BitTraits<mpz_class>::GetNumBits(k2));
 
     RetPoint ret = RetPoint::Zero();
     bool skip_zeros = true;
-    auto k1_it = k1_begin;
-    auto k2_it = k2_begin;
-    while (k1_it != k1_end) {
-      if (skip_zeros && !(*k1_it) && !(*k2_it)) {
-        skip_zeros = false;
-        ++k1_it;
-        ++k2_it;
-        continue;
-      }
+    for (size_t i = num_bits - 1; i != SIZE_MAX; --i) {
+      bool k1_bit = BitTraits<mpz_class>::TestBit(k1, i);
+      bool k2_bit = BitTraits<mpz_class>::TestBit(k2, i);
+      if (skip_zeros && !k1_bit && !k2_bit) continue;
       skip_zeros = false;
       ret.DoubleInPlace();
-      if ((*k1_it)) {
-        if (*(k2_it)) {
+      if (k1_bit) {
+        if (k2_bit) {
           ret += b1b2;
         } else {
           ret += b1;
         }
       } else {
-        if (*(k2_it)) {
+        if (k2_bit) {
           ret += b2;
         }
       }
-      ++k1_it;
-      ++k2_it;
     }
     return ret;
   }
-- 
2.43.0


From 867108880dae8133472938c3d1116f7e2aa5b803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:21 +0000
Subject: [PATCH 34/49] fix: make GetExtendedPackedPowers() independent of the
 packed traits included and of size 0

---
 tachyon/math/finite_fields/extension_field_base.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/finite_fields/extension_field_base.h b/tachyon/math/finite_fields/extension_field_base.h
index b3c06bd..807c269 100644
--- a/tachyon/math/finite_fields/extension_field_base.h
+++ b/tachyon/math/finite_fields/extension_field_base.h
@@ -65,8 +65,8 @@ class ExtensionFieldBase {
           nullptr>
   static std::vector<ExtendedPackedField> GetExtendedPackedPowers(const T& base,
                                                                   size_t size) {
-    using BaseField = typename T::BaseField;
-    using PackedField = typename PackedFieldTraits<BaseField>::PackedField;
+    using PackedField =
+        typename ExtensionFieldTraits<ExtendedPackedField>::BaseField;
     constexpr uint32_t kDegree = T::ExtensionDegree();
 
     // if |PackedField::N| = 8,
@@ -93,6 +93,7 @@ class ExtensionFieldBase {
     // |ret[i]| = [ b⁸ⁱ, b⁸ⁱ⁺¹, ..., b⁸ⁱ⁺⁶, b⁸ⁱ⁺⁷ ], where b is an extension
     // field of |base|.
     std::vector<ExtendedPackedField> ret;
+    if (size == 0) return ret;
     ret.reserve(size);
     ret.emplace_back(first_n_powers);
     for (size_t i = 0; i < size - 1; ++i) {
-- 
2.43.0


From dd3c0786d23c64e6c9eef1714a550178efed20e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:04 +0000
Subject: [PATCH 35/49] fix: check the joining selector's own degree when
 combining selectors

---
 tachyon/zk/plonk/constraint_system/selector_compressor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/constraint_system/selector_compressor.h b/tachyon/zk/plonk/constraint_system/selector_compressor.h
index 923e744..9c168d3 100644
--- a/tachyon/zk/plonk/constraint_system/selector_compressor.h
+++ b/tachyon/zk/plonk/constraint_system/selector_compressor.h
@@ -220,7 +220,7 @@ class SelectorCompressor {
         // Can the new selector join the combination? Reminder: we use
         // |selector.max_degree() - 1| to omit the influence of the virtual
         // selector on the degree, as it will be substituted.
-        size_t new_d = std::max(d, selector.max_degree() - 1);
+        size_t new_d = std::max(d, selectors_[j].max_degree() - 1);
         if (new_d + combination.size() + 1 > max_degree) {
           // Guess not.
           continue;
-- 
2.43.0


From 17fd28cefcbc40646a683998b71ecb6632403d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:04 +0000
Subject: [PATCH 36/49] fix: include the scaled expression in its identifier

---
 tachyon/zk/plonk/expressions/evaluator/identifier.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/zk/plonk/expressions/evaluator/identifier.h b/tachyon/zk/plonk/expressions/evaluator/identifier.h
index ee471b4..678c5ea 100644
--- a/tachyon/zk/plonk/expressions/evaluator/identifier.h
+++ b/tachyon/zk/plonk/expressions/evaluator/identifier.h
@@ -50,6 +50,7 @@ class Identifier : public Evaluator<F, void> {
         ss_ << ")";
         return;
       case ExpressionType::kScaled:
+        Evaluate(input->ToScaled()->expr());
         ss_ << "*";
         ss_ << input->ToScaled()->scale().ToString();
         return;
-- 
2.43.0


From c7b0fa0467820034979ed0881dfc7953282689d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:04 +0000
Subject: [PATCH 37/49] fix: chunk lookup inputs only into arguments of their
 own table

---
 tachyon/zk/plonk/constraint_system/constraint_system.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/constraint_system/constraint_system.h b/tachyon/zk/plonk/constraint_system/constraint_system.h
index 61fc823..b2ff62e 100644
--- a/tachyon/zk/plonk/constraint_system/constraint_system.h
+++ b/tachyon/zk/plonk/constraint_system/constraint_system.h
@@ -303,6 +303,8 @@ class ConstraintSystem {
     size_t minimum_degree = minimum_degree_.value();
 
     for (const auto& [_, lookup_tracker] : lookups_map_) {
+      // Inputs may only join the |lookup_arguments| of their own table.
+      size_t first_argument = lookups_.size();
       std::vector<std::unique_ptr<Expression<F>>> cloned_input =
           Expression<F>::CloneExpressions(lookup_tracker.inputs[0]);
       std::vector<std::unique_ptr<Expression<F>>> cloned_table =
@@ -316,7 +318,8 @@ class ConstraintSystem {
         size_t cur_input_degree = ComputeColumnDegree(*input);
 
         bool added = false;
-        for (lookup::Argument<F>& lookup_argument : lookups_) {
+        for (size_t i = first_argument; i < lookups_.size(); ++i) {
+          lookup::Argument<F>& lookup_argument = lookups_[i];
           // Try to fit input into one of the |lookup_arguments|.
           size_t cur_argument_degree = lookup_argument.RequiredDegree();
           size_t new_potential_degree = cur_argument_degree + cur_input_degree;
-- 
2.43.0


From 36800e734a07e19ad65b4cff959e8da9e3444089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:04 +0000
Subject: [PATCH 38/49] fix: reject copies to the row just past the permutation
 assembly

---
 tachyon/zk/plonk/permutation/permutation_assembly.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/zk/plonk/permutation/permutation_assembly.h b/tachyon/zk/plonk/permutation/permutation_assembly.h
index 6fa67d0..8bf0f27 100644
--- a/tachyon/zk/plonk/permutation/permutation_assembly.h
+++ b/tachyon/zk/plonk/permutation/permutation_assembly.h
@@ -59,8 +59,8 @@ class TACHYON_EXPORT PermutationAssembly {
 
   void Copy(const AnyColumnKey& left_column, RowIndex left_row,
             const AnyColumnKey& right_column, RowIndex right_row) {
-    CHECK_LE(left_row, rows_);
-    CHECK_LE(right_row, rows_);
+    CHECK_LT(left_row, rows_);
+    CHECK_LT(right_row, rows_);
 
     // Get indices of each column.
     size_t left_col_idx = GetColumnIndex(left_column);
-- 
2.43.0


From d4a28e32e268754b3785cc6acbf41ba5f608d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:18 +0000
Subject: [PATCH 39/49] fix: list each label of a permutation cycle once

---
 tachyon/zk/plonk/permutation/cycle_store.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/permutation/cycle_store.cc b/tachyon/zk/plonk/permutation/cycle_store.cc
index ee72132..bbb8417 100644
--- a/tachyon/zk/plonk/permutation/cycle_store.cc
+++ b/tachyon/zk/plonk/permutation/cycle_store.cc
@@ -42,10 +42,10 @@ std::vector<Label> CycleStore::GetAllLabels(const Label& label) const {
   ret.push_back(l);
   while (true) {
     l = mapping_[l];
-    ret.push_back(l);
     if (l == base) {
       break;
     }
+    ret.push_back(l);
   }
   return ret;
 }
-- 
2.43.0


From b56c09527a3d21c6ccf441c2c6688941ed5a160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:06 +0000
Subject: [PATCH 40/49] =?UTF-8?q?fix:=20pair=20with=20[=CF=84]=E2=82=82=20?=
 =?UTF-8?q?and=20[-1]=E2=82=82=20in=20GWC=20and=20SHPlonk=20built=20from?=
 =?UTF-8?q?=20their=20parts?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A scheme read back from a buffer prepared the wrong points of the second
group and rejected every valid proof.
---
 tachyon/crypto/commitments/kzg/gwc.h     | 4 ++--
 tachyon/crypto/commitments/kzg/shplonk.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/crypto/commitments/kzg/gwc.h b/tachyon/crypto/commitments/kzg/gwc.h
index bb6ebb9..ec51448 100644
--- a/tachyon/crypto/commitments/kzg/gwc.h
+++ b/tachyon/crypto/commitments/kzg/gwc.h
@@ -55,8 +55,8 @@ class GWC final : public UnivariatePolynomialCommitmentScheme<
   GWC(KZG<G1Point, MaxDegree, Commitment>&& kzg, G2Point&& s_g2)
       : KZGFamily<G1Point, MaxDegree, Commitment>(std::move(kzg)),
         s_g2_(std::move(s_g2)),
-        g2_arr_({G2Prepared::From(G2Point::Generator()),
-                 G2Prepared::From(-s_g2)}) {}
+        g2_arr_({G2Prepared::From(s_g2_),
+                 G2Prepared::From(-G2Point::Generator())}) {}
 
   const G2Point& s_g2() const { return s_g2_; }
 
diff --git a/tachyon/crypto/commitments/kzg/shplonk.h b/tachyon/crypto/commitments/kzg/shplonk.h
index 41950c9..9c4d82b 100644
--- a/tachyon/crypto/commitments/kzg/shplonk.h
+++ b/tachyon/crypto/commitments/kzg/shplonk.h
@@ -56,8 +56,8 @@ class SHPlonk final : public UnivariatePolynomialCommitmentScheme<
   SHPlonk(KZG<G1Point, MaxDegree, Commitment>&& kzg, G2Point&& s_g2)
       : KZGFamily<G1Point, MaxDegree, Commitment>(std::move(kzg)),
         s_g2_(std::move(s_g2)),
-        g2_arr_({G2Prepared::From(G2Point::Generator()),
-                 G2Prepared::From(-s_g2)}) {}
+        g2_arr_({G2Prepared::From(s_g2_),
+                 G2Prepared::From(-G2Point::Generator())}) {}
 
   const G2Point& s_g2() const { return s_g2_; }
 
-- 
2.43.0


From 9a27df78e0426b579da271d96e04fc7295c3c267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:06 +0000
Subject: [PATCH 41/49] fix: let SimpleFRI commit to polynomials that fold to
 zero

The evaluations of a zero polynomial are empty, so that the Merkle tree of
the layer was refused.
---
 tachyon/crypto/commitments/fri/simple_fri.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tachyon/crypto/commitments/fri/simple_fri.h b/tachyon/crypto/commitments/fri/simple_fri.h
index a631e05..182c21c 100644
--- a/tachyon/crypto/commitments/fri/simple_fri.h
+++ b/tachyon/crypto/commitments/fri/simple_fri.h
@@ -57,6 +57,8 @@ class SimpleFRI final
     BinaryMerkleTree<F, F, MaxDegree + 1> tree(storage_->GetLayer(0), hasher_);
     Evals evals = domain_->FFT(poly);
     F root;
+    // NOTE: The evaluations of a zero polynomial are empty.
+    evals.evaluations().resize(domain_->size());
     if (!tree.Commit(evals.evaluations(), &root)) return false;
     if (!writer->WriteToProof(root)) return false;
     const Poly* cur_poly = &poly;
@@ -74,6 +76,7 @@ class SimpleFRI final
         BinaryMerkleTree<F, F, MaxDegree + 1> tree(storage_->GetLayer(i),
                                                    hasher_);
         evals = sub_domains_[i - 1]->FFT(folded_poly);
+        evals.evaluations().resize(sub_domains_[i - 1]->size());
         if (!tree.Commit(evals.evaluations(), &root)) return false;
         if (!writer->WriteToProof(root)) return false;
         cur_poly = &folded_poly;
-- 
2.43.0


From 215dadb0f3eaf49333d32087fb1913a4f2fd0f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:39 +0000
Subject: [PATCH 42/49] fix: bind the paths of a SimpleFRI proof to its index

---
 tachyon/crypto/commitments/fri/BUILD.bazel  |  1 +
 tachyon/crypto/commitments/fri/simple_fri.h | 31 ++++++++++++++++++++-
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/tachyon/crypto/commitments/fri/BUILD.bazel b/tachyon/crypto/commitments/fri/BUILD.bazel
index 2b21185..dd0056e 100644
--- a/tachyon/crypto/commitments/fri/BUILD.bazel
+++ b/tachyon/crypto/commitments/fri/BUILD.bazel
@@ -48,6 +48,7 @@ tachyon_cc_library(
     deps = [
         ":simple_fri_proof",
         ":simple_fri_storage",
+        "//tachyon/base:bits",
         "//tachyon/base:logging",
         "//tachyon/base:optional",
         "//tachyon/base/containers:container_util",
diff --git a/tachyon/crypto/commitments/fri/simple_fri.h b/tachyon/crypto/commitments/fri/simple_fri.h
index 182c21c..821ed87 100644
--- a/tachyon/crypto/commitments/fri/simple_fri.h
+++ b/tachyon/crypto/commitments/fri/simple_fri.h
@@ -11,6 +11,7 @@
 #include <utility>
 #include <vector>
 
+#include "tachyon/base/bits.h"
 #include "tachyon/base/containers/container_util.h"
 #include "tachyon/base/logging.h"
 #include "tachyon/base/optional.h"
@@ -127,6 +128,14 @@ class SimpleFRI final
     TranscriptReader<F>* reader = transcript.ToReader();
     size_t domain_size = domain_->size();
     uint32_t num_layers = domain_->log_size_of_group();
+    if (proof.paths.size() != num_layers ||
+        proof.paths_sym.size() != num_layers ||
+        proof.evaluations.size() != num_layers ||
+        proof.evaluations_sym.size() != num_layers) {
+      LOG(ERROR) << "Proof doesn't have " << num_layers << " layers";
+      return false;
+    }
+
     F root;
     F x;
     F beta;
@@ -136,6 +145,14 @@ class SimpleFRI final
       BinaryMerkleTreeStorage<F>* layer = storage_->GetLayer(i);
       BinaryMerkleTree<F, F, MaxDegree + 1> tree(layer, hasher_);
 
+      size_t leaf_index = index % domain_size;
+      size_t leaf_index_sym = (index + (domain_size >> 1)) % domain_size;
+      if (!IsPathFrom(proof.paths[i], leaf_index, domain_size) ||
+          !IsPathFrom(proof.paths_sym[i], leaf_index_sym, domain_size)) {
+        LOG(ERROR) << "Path doesn't match with index at layer [" << i << "]";
+        return false;
+      }
+
       if (!reader->ReadFromProof(&root)) return false;
       if (!tree.VerifyOpeningProof(root, proof.evaluations[i], proof.paths[i]))
         return false;
@@ -164,7 +181,6 @@ class SimpleFRI final
       // Substituting Pᵢ_even and Pᵢ_odd:
       // Pᵢ₊₁(ω²ʲ) = (Pᵢ(ωʲ) + Pᵢ(-ωʲ)) / 2 + β * (Pᵢ(ωʲ) - Pᵢ(-ωʲ)) / (2 * ωʲ)
       //           = ((1 + β * ω⁻ʲ) * Pᵢ(ωʲ) + (1 - β * ω⁻ʲ) * Pᵢ(-ωʲ)) / 2
-      size_t leaf_index = index % domain_size;
       if (i == 0) {
         evaluation = proof.evaluations[i];
         evaluation_sym = proof.evaluations_sym[i];
@@ -204,6 +220,19 @@ class SimpleFRI final
   }
 
  private:
+  // Returns true if |proof| is a path from the leaf at |leaf_index| to the root
+  // of the tree of |num_leaves|.
+  static bool IsPathFrom(const BinaryMerkleProof<F>& proof, size_t leaf_index,
+                         size_t num_leaves) {
+    if (proof.paths.size() != base::bits::Log2Floor(num_leaves)) return false;
+    for (const BinaryMerklePath<F>& path : proof.paths) {
+      // The sibling of an odd node is on its left.
+      if (path.left != ((leaf_index & 1) == 1)) return false;
+      leaf_index >>= 1;
+    }
+    return true;
+  }
+
   // not owned
   const Domain* domain_ = nullptr;
   // not owned
-- 
2.43.0


From 02dd15eb9eda1370c921b4769f7ce7833b8cb691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:32 +0000
Subject: [PATCH 43/49] fix: write floating-point values by their bits

---
 tachyon/base/buffer/BUILD.bazel | 5 ++++-
 tachyon/base/buffer/buffer.h    | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/tachyon/base/buffer/BUILD.bazel b/tachyon/base/buffer/BUILD.bazel
index 1acf218..1838c87 100644
--- a/tachyon/base/buffer/BUILD.bazel
+++ b/tachyon/base/buffer/BUILD.bazel
@@ -6,7 +6,10 @@ tachyon_cc_library(
     name = "buffer",
     srcs = ["buffer.cc"],
     hdrs = ["buffer.h"],
-    deps = [":read_only_buffer"],
+    deps = [
+        ":read_only_buffer",
+        "//tachyon/base:bit_cast",
+    ],
 )
 
 tachyon_cc_library(
diff --git a/tachyon/base/buffer/buffer.h b/tachyon/base/buffer/buffer.h
index 29daf9d..7248029 100644
--- a/tachyon/base/buffer/buffer.h
+++ b/tachyon/base/buffer/buffer.h
@@ -1,6 +1,7 @@
 #ifndef TACHYON_BASE_BUFFER_BUFFER_H_
 #define TACHYON_BASE_BUFFER_BUFFER_H_
 
+#include "tachyon/base/bit_cast.h"
 #include "tachyon/base/buffer/read_only_buffer.h"
 
 namespace tachyon::base {
@@ -86,9 +87,11 @@ class TACHYON_EXPORT Buffer : public ReadOnlyBuffer {
   [[nodiscard]] bool WriteAt(size_t buffer_offset, T value) {             \
     switch (endian_) {                                                    \
       case Endian::kBig:                                                  \
-        return Write##bits##BEAt(buffer_offset, value);                   \
+        return Write##bits##BEAt(buffer_offset,                           \
+                                 base::bit_cast<type>(value));            \
       case Endian::kLittle:                                               \
-        return Write##bits##LEAt(buffer_offset, value);                   \
+        return Write##bits##LEAt(buffer_offset,                           \
+                                 base::bit_cast<type>(value));            \
       case Endian::kNative:                                               \
         return WriteAt(buffer_offset,                                     \
                        reinterpret_cast<const uint8_t*>(&value), bytes);  \
-- 
2.43.0


From f24bb98be072e69fe3cf8197f0936381aa439db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:32 +0000
Subject: [PATCH 44/49] fix: copy strings of wide characters whole

---
 tachyon/base/buffer/copyable.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tachyon/base/buffer/copyable.h b/tachyon/base/buffer/copyable.h
index 398e299..18ef5f6 100644
--- a/tachyon/base/buffer/copyable.h
+++ b/tachyon/base/buffer/copyable.h
@@ -47,7 +47,7 @@ class Copyable<std::basic_string_view<CharTy>> {
                       Buffer* buffer) {
     if (!buffer->Write(value.size())) return false;
     return buffer->Write(reinterpret_cast<const uint8_t*>(value.data()),
-                         value.size());
+                         value.size() * sizeof(CharTy));
   }
 
   static bool ReadFrom(const ReadOnlyBuffer& buffer,
@@ -57,7 +57,7 @@ class Copyable<std::basic_string_view<CharTy>> {
   }
 
   static size_t EstimateSize(const std::basic_string_view<CharTy>& value) {
-    return sizeof(size_t) + value.size();
+    return sizeof(size_t) + value.size() * sizeof(CharTy);
   }
 };
 
@@ -67,7 +67,7 @@ class Copyable<std::basic_string<CharTy>> {
   static bool WriteTo(const std::basic_string<CharTy>& value, Buffer* buffer) {
     if (!buffer->Write(value.size())) return false;
     return buffer->Write(reinterpret_cast<const uint8_t*>(value.data()),
-                         value.size());
+                         value.size() * sizeof(CharTy));
   }
 
   static bool ReadFrom(const ReadOnlyBuffer& buffer,
@@ -75,11 +75,12 @@ class Copyable<std::basic_string<CharTy>> {
     size_t size;
     if (!buffer.Read(&size)) return false;
     value->resize(size);
-    return buffer.Read(reinterpret_cast<uint8_t*>(value->data()), size);
+    return buffer.Read(reinterpret_cast<uint8_t*>(value->data()),
+                       size * sizeof(CharTy));
   }
 
   static size_t EstimateSize(const std::basic_string<CharTy>& value) {
-    return sizeof(size_t) + value.size();
+    return sizeof(size_t) + value.size() * sizeof(CharTy);
   }
 };
 
-- 
2.43.0


From b73fb3c39587cc5c1df33f0f5e00028a6f6dce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:32 +0000
Subject: [PATCH 45/49] fix: keep the null characters of strings in JSON

---
 tachyon/base/json/rapidjson_util.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tachyon/base/json/rapidjson_util.h b/tachyon/base/json/rapidjson_util.h
index 17d3384..de681ae 100644
--- a/tachyon/base/json/rapidjson_util.h
+++ b/tachyon/base/json/rapidjson_util.h
@@ -194,7 +194,7 @@ class RapidJsonValueConverter<std::string> {
       *error = RapidJsonMismatchedTypeError(key, "string", json_value);
       return false;
     }
-    *value = json_value.GetString();
+    *value = {json_value.GetString(), json_value.GetStringLength()};
     return true;
   }
 };
@@ -213,7 +213,7 @@ class RapidJsonValueConverter<std::string_view> {
       *error = RapidJsonMismatchedTypeError(key, "string_view", json_value);
       return false;
     }
-    *value = json_value.GetString();
+    *value = {json_value.GetString(), json_value.GetStringLength()};
     return true;
   }
 };
@@ -430,7 +430,7 @@ Writer<OutputStream, SourceEncoding, TargetEncoding, StackAllocator>&
 operator<<(Writer<OutputStream, SourceEncoding, TargetEncoding, StackAllocator>&
                writer,
            std::string_view value) {
-  writer.String(value.data());
+  writer.String(value.data(), value.size());
   return writer;
 }
 
-- 
2.43.0


From 1848bc1c649d94cac141cd46cedc5a502147ff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:32 +0000
Subject: [PATCH 46/49] fix: parse floating-point values of JSON in full
 precision

---
 tachyon/base/json/json.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/json/json.h b/tachyon/base/json/json.h
index 82a3388..6195c50 100644
--- a/tachyon/base/json/json.h
+++ b/tachyon/base/json/json.h
@@ -17,7 +17,8 @@ namespace tachyon::base {
 template <typename T>
 bool ParseJson(std::string_view content, T* value, std::string* error) {
   rapidjson::Document document;
-  document.Parse(content.data(), content.length());
+  document.Parse<rapidjson::kParseFullPrecisionFlag>(content.data(),
+                                                     content.length());
   if (document.HasParseError()) {
     *error =
         absl::Substitute("Failed to parse with error \"$0\" at offset $1",
-- 
2.43.0


From 0bf423a8bc11a9a0646aeb3fcdc3d3cd8bb62f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:32 +0000
Subject: [PATCH 47/49] fix: keep the endianness of a buffer that is moved

---
 tachyon/base/buffer/read_only_buffer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/buffer/read_only_buffer.h b/tachyon/base/buffer/read_only_buffer.h
index 1b39223..b4e19a1 100644
--- a/tachyon/base/buffer/read_only_buffer.h
+++ b/tachyon/base/buffer/read_only_buffer.h
@@ -45,10 +45,12 @@ class TACHYON_EXPORT ReadOnlyBuffer {
   ReadOnlyBuffer(const ReadOnlyBuffer& other) = delete;
   ReadOnlyBuffer& operator=(const ReadOnlyBuffer& other) = delete;
   ReadOnlyBuffer(ReadOnlyBuffer&& other)
-      : buffer_(std::exchange(other.buffer_, nullptr)),
+      : endian_(other.endian_),
+        buffer_(std::exchange(other.buffer_, nullptr)),
         buffer_offset_(std::exchange(other.buffer_offset_, 0)),
         buffer_len_(std::exchange(other.buffer_len_, 0)) {}
   ReadOnlyBuffer& operator=(ReadOnlyBuffer&& other) {
+    endian_ = other.endian_;
     buffer_ = std::exchange(other.buffer_, nullptr);
     buffer_offset_ = std::exchange(other.buffer_offset_, 0);
     buffer_len_ = std::exchange(other.buffer_len_, 0);
-- 
2.43.0


From 16aa542d6dff032b6e7593bcd4a3a616f72ea8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:10 +0000
Subject: [PATCH 48/49] fix: evaluate the constraints of PSE halo2 over its
 extended domain

The PSE proving path evaluates every row of the extended domain at once,
but rotated by one extended row modulo the size of the domain, used the
generator of the domain for the identity permutation and never loaded
l_first, l_last and l_active_row: every proof was refused.
---
 tachyon/zk/lookup/halo2/evaluator.h           |  9 ++++++---
 .../lookup/log_derivative_halo2/evaluator.h   | 15 +++++++-------
 .../plonk/permutation/permutation_evaluator.h |  7 ++++---
 .../vanishing/circuit_polynomial_builder.h    | 20 +++++++++++++++----
 .../plonk/vanishing/custom_gate_evaluator.h   |  2 +-
 tachyon/zk/shuffle/evaluator.h                |  9 +++++----
 6 files changed, 39 insertions(+), 23 deletions(-)

diff --git a/tachyon/zk/lookup/halo2/evaluator.h b/tachyon/zk/lookup/halo2/evaluator.h
index 58a4c8c..e373869 100644
--- a/tachyon/zk/lookup/halo2/evaluator.h
+++ b/tachyon/zk/lookup/halo2/evaluator.h
@@ -81,10 +81,13 @@ class Evaluator {
         size_t idx = start + j;
 
         F zero = F::Zero();
-        F table_value = ev.Evaluate(evaluation_input, idx, /*scale=*/1, zero);
+        F table_value =
+            ev.Evaluate(evaluation_input, idx, builder.rot_scale_, zero);
 
-        RowIndex r_next = Rotation(1).GetIndex(idx, /*scale=*/1, builder.n_);
-        RowIndex r_prev = Rotation(-1).GetIndex(idx, /*scale=*/1, builder.n_);
+        RowIndex r_next =
+            Rotation(1).GetIndex(idx, builder.rot_scale_, builder.n_);
+        RowIndex r_prev =
+            Rotation(-1).GetIndex(idx, builder.rot_scale_, builder.n_);
 
         F a_minus_s = input_coset[idx] - table_coset[idx];
 
diff --git a/tachyon/zk/lookup/log_derivative_halo2/evaluator.h b/tachyon/zk/lookup/log_derivative_halo2/evaluator.h
index 6a4c706..635ed69 100644
--- a/tachyon/zk/lookup/log_derivative_halo2/evaluator.h
+++ b/tachyon/zk/lookup/log_derivative_halo2/evaluator.h
@@ -119,17 +119,16 @@ class Evaluator {
         if (idx == 0) {
           inputs_value = base::Map(
               inputs_eval_data,
-              [&inputs_evaluator, &cur_idx](
+              [&builder, &inputs_evaluator, &cur_idx](
                   size_t i, plonk::EvaluationInput<EvalsOrExtendedEvals>&
                                 input_eval_data) {
-                return inputs_evaluator[i].Evaluate(input_eval_data, cur_idx,
-                                                    /*scale=*/1, F::Zero());
+                return inputs_evaluator[i].Evaluate(
+                    input_eval_data, cur_idx, builder.rot_scale_, F::Zero());
               });
         } else {
           for (size_t i = 0; i < inputs_value.size(); ++i) {
-            inputs_value[i] =
-                inputs_evaluator[i].Evaluate(inputs_eval_data[i], cur_idx,
-                                             /*scale=*/1, F::Zero());
+            inputs_value[i] = inputs_evaluator[i].Evaluate(
+                inputs_eval_data[i], cur_idx, builder.rot_scale_, F::Zero());
           }
         }
 
@@ -140,9 +139,9 @@ class Evaluator {
 
         // τ(X) = t(X) + β
         F table_value = table_evaluator.Evaluate(table_eval_data, cur_idx,
-                                                 /*scale=*/1, F::Zero());
+                                                 builder.rot_scale_, F::Zero());
         RowIndex r_next =
-            Rotation(1).GetIndex(cur_idx, /*scale=*/1, builder.n_);
+            Rotation(1).GetIndex(cur_idx, builder.rot_scale_, builder.n_);
 
         // LHS = τ(X) * Π(φᵢ(X)) * (ϕ(ω * X) - ϕ(X))
         F lhs = table_value * inputs_prod *
diff --git a/tachyon/zk/plonk/permutation/permutation_evaluator.h b/tachyon/zk/plonk/permutation/permutation_evaluator.h
index a7c55c1..4c5b645 100644
--- a/tachyon/zk/plonk/permutation/permutation_evaluator.h
+++ b/tachyon/zk/plonk/permutation/permutation_evaluator.h
@@ -68,8 +68,8 @@ class PermutationEvaluator {
         TRACE_EVENT("Subtask", "Evaluate permutation constraints part 2");
         // Except for the first set, enforce:
         // l_first(X) * (zⱼ(X) - zⱼ₋₁(ω⁻¹X)) = 0
-        RowIndex r_last =
-            builder.last_rotation_.GetIndex(idx, /*scale=*/1, builder.n_);
+        RowIndex r_last = builder.last_rotation_.GetIndex(
+            idx, builder.rot_scale_, builder.n_);
         for (size_t j = 0; j < product_cosets_.size(); ++j) {
           if (j == 0) continue;
           chunk[i] *= builder.y_;
@@ -83,7 +83,8 @@ class PermutationEvaluator {
         // And for all the sets we enforce: (1 - (l_last(X) + l_blind(X))) *
         // (zⱼ(ωX) * Πⱼ(p(X) + βsⱼ(X) + γ) - zⱼ(X) Πⱼ(p(X) + δʲβX + γ))
         F current_delta = builder.delta_start_ * beta_term;
-        RowIndex r_next = Rotation(1).GetIndex(idx, /*scale=*/1, builder.n_);
+        RowIndex r_next =
+            Rotation(1).GetIndex(idx, builder.rot_scale_, builder.n_);
 
         for (size_t j = 0; j < product_cosets_.size(); ++j) {
           const std::vector<base::Ref<const EvalsOrExtendedEvals>>&
diff --git a/tachyon/zk/plonk/vanishing/circuit_polynomial_builder.h b/tachyon/zk/plonk/vanishing/circuit_polynomial_builder.h
index d26417b..3701517 100644
--- a/tachyon/zk/plonk/vanishing/circuit_polynomial_builder.h
+++ b/tachyon/zk/plonk/vanishing/circuit_polynomial_builder.h
@@ -109,15 +109,23 @@ class CircuitPolynomialBuilder {
       const std::vector<PermutationProver<Poly, Evals>>& permutation_provers,
       const std::vector<LookupProver>& lookup_provers,
       const std::vector<shuffle::Prover<Poly, Evals>>& shuffle_provers) {
+    // The rows of |Vendor::kPSE| run over the extended domain at once, whereas
+    // those of |Vendor::kScroll| run over each part of it.
+    constexpr bool kIsPSE = kVendor == halo2::Vendor::kPSE;
     CircuitPolynomialBuilder builder(
-        domain->group_gen(), extended_domain->group_gen(), theta, beta, gamma,
-        y, zeta, proving_key, permutation_provers, lookup_provers,
-        shuffle_provers, poly_tables);
+        kIsPSE ? extended_domain->group_gen() : domain->group_gen(),
+        extended_domain->group_gen(), theta, beta, gamma, y, zeta, proving_key,
+        permutation_provers, lookup_provers, shuffle_provers, poly_tables);
     builder.domain_ = domain;
     builder.extended_domain_ = extended_domain;
 
-    builder.n_ = static_cast<int32_t>(n);
     builder.num_parts_ = extended_domain->size() >> domain->log_size_of_group();
+    if constexpr (kIsPSE) {
+      builder.n_ = static_cast<int32_t>(extended_domain->size());
+      builder.rot_scale_ = static_cast<int32_t>(builder.num_parts_);
+    } else {
+      builder.n_ = static_cast<int32_t>(n);
+    }
     builder.chunk_len_ = cs_degree - 2;
 
     builder.delta_ = GetDelta<F>();
@@ -171,6 +179,9 @@ class CircuitPolynomialBuilder {
       lookup::Evaluator<kLookupType, Evals>& lookup_evaluator,
       shuffle::Evaluator<EvalsOrExtendedEvals>& shuffle_evaluator) {
     ExtendedEvals ret = extended_domain_->template Zero<ExtendedEvals>();
+    l_first_ = proving_key_.l_first();
+    l_last_ = proving_key_.l_last();
+    l_active_row_ = proving_key_.l_active_row();
     size_t circuit_num = poly_tables_.size();
     for (size_t i = 0; i < circuit_num; ++i) {
       VLOG(1) << "BuildExtendedCircuitColumn circuit: (" << i + 1 << " / "
@@ -254,6 +265,7 @@ class CircuitPolynomialBuilder {
   F current_extended_omega_ = F::One();
 
   int32_t n_ = 0;
+  int32_t rot_scale_ = 1;
   size_t num_parts_ = 0;
   size_t chunk_len_ = 0;
   const F& omega_;
diff --git a/tachyon/zk/plonk/vanishing/custom_gate_evaluator.h b/tachyon/zk/plonk/vanishing/custom_gate_evaluator.h
index d913b17..4b85857 100644
--- a/tachyon/zk/plonk/vanishing/custom_gate_evaluator.h
+++ b/tachyon/zk/plonk/vanishing/custom_gate_evaluator.h
@@ -52,7 +52,7 @@ class CustomGateEvaluator {
     size_t start = chunk_offset * chunk_size;
     for (size_t i = 0; i < chunk.size(); ++i) {
       chunk[i] = evaluator_.Evaluate(evaluation_input, start + i,
-                                     /*scale=*/1, chunk[i]);
+                                     builder.rot_scale_, chunk[i]);
     }
   }
 
diff --git a/tachyon/zk/shuffle/evaluator.h b/tachyon/zk/shuffle/evaluator.h
index a8c773e..288aa17 100644
--- a/tachyon/zk/shuffle/evaluator.h
+++ b/tachyon/zk/shuffle/evaluator.h
@@ -89,11 +89,12 @@ class Evaluator {
         size_t idx = start + j;
 
         F input_value = input_evaluator.Evaluate(input_eval_data, idx,
-                                                 /*scale=*/1, F::Zero());
-        F value = evaluator.Evaluate(eval_data, idx,
-                                     /*scale=*/1, F::Zero());
+                                                 builder.rot_scale_, F::Zero());
+        F value =
+            evaluator.Evaluate(eval_data, idx, builder.rot_scale_, F::Zero());
 
-        RowIndex r_next = Rotation(1).GetIndex(idx, /*scale=*/1, builder.n_);
+        RowIndex r_next =
+            Rotation(1).GetIndex(idx, builder.rot_scale_, builder.n_);
 
         // l_first(X) * (1 - z(X)) = 0
         chunk[j] *= builder.y_;
-- 
2.43.0


From b2049add5f134f0d938bcf217e961dc2a928ed5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:58 +0000
Subject: [PATCH 49/49] fix: read the grand product of each shuffle argument

Two graphs are constructed per argument, so the grand product of the
arguments after the first one was read at twice its index, out of bounds:
every proof of a circuit with two shuffle arguments was refused.
---
 tachyon/zk/shuffle/evaluator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/zk/shuffle/evaluator.h b/tachyon/zk/shuffle/evaluator.h
index 288aa17..9e3c2cf 100644
--- a/tachyon/zk/shuffle/evaluator.h
+++ b/tachyon/zk/shuffle/evaluator.h
@@ -74,7 +74,7 @@ class Evaluator {
     for (size_t i = 0; i < evaluators_.size(); i += 2) {
       const plonk::GraphEvaluator<F>& input_evaluator = evaluators_[i];
       const plonk::GraphEvaluator<F>& evaluator = evaluators_[i + 1];
-      const EvalsOrExtendedEvals& product_coset = product_cosets_[i];
+      const EvalsOrExtendedEvals& product_coset = product_cosets_[i / 2];
 
       plonk::EvaluationInput<EvalsOrExtendedEvals> input_eval_data =
           builder.ExtractEvaluationInput(
-- 
2.43.0

