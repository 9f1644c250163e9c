From 8de9d20d30fbc4cd54d9ed16c4fadb211e834aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 01/28] fix: divide by the weight function in rational
 ForwardEvaluate

---
 src/rational_bezier_spline.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 9378e1a..41fd4a9 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -201,8 +201,8 @@ constexpr PhysicalPointType RationalBezierSpline<
   // Check sanity
   assert(CheckSplineCompatibility());
 
-  // Evaluiere Basis Functions
-  const auto factors = weighted_spline_.BasisFunctions(par_coords);
+  // Evaluiere Basis Functions (divided by the weight function)
+  const auto factors = UnweightedBasisFunctions(par_coords);
 
   // Initialize values
   PhysicalPointType evaluation_point{};
-- 
2.43.0


From 191b92c82692689a7fc7ba1e9166643a17cdc43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 02/28] fix: use all indices in the variadic rational
 ControlPoint accessor

---
 src/rational_bezier_spline.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 41fd4a9..eaf92e8 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -31,7 +31,7 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType,
   static_assert(sizeof...(T) == parametric_dimension,
                 "Unspecified number of indices.");
   const std::array<IndexingType, parametric_dimension> indices{
-      (static_cast<IndexingType>(index), ...)};
+      static_cast<IndexingType>(index)...};
   return ControlPoint(indices);
 }
 
-- 
2.43.0


From 11b120350b03172e62aa920d0fab8ef8107b01d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 03/28] fix: return the zero spline for derivative orders above
 the degree

---
 src/bezier_spline.inc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 62a5ebb..9ec8afd 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -269,6 +269,22 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     return multi_index;
   };
 
+  // Derivatives beyond the polynomial degree vanish identically
+  bool vanishes{false};
+  auto reduced_degrees = degrees;
+  for (IndexingType i_para_dim{}; i_para_dim < parametric_dimension;
+       i_para_dim++) {
+    if (orders[i_para_dim] > degrees[i_para_dim]) {
+      vanishes = true;
+      reduced_degrees[i_para_dim] = 0;
+    } else {
+      reduced_degrees[i_para_dim] -= orders[i_para_dim];
+    }
+  }
+  if (vanishes) {
+    return BezierSpline{reduced_degrees};
+  }
+
   // Loop over order vector and apply
   for (IndexingType i_para_dim{}; i_para_dim < parametric_dimension;
        i_para_dim++) {
-- 
2.43.0


From 9c531eae708cd538443a2f4682687bef7463ee9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:30 +0000
Subject: [PATCH 04/28] fix: keep numerator and denominator degrees equal when
 deriving along a constant dimension

---
 src/rational_bezier_spline.inc | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index eaf92e8..f2dd639 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -528,15 +528,20 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     std::array<IndexingType, parametric_dimension> order_{};
     order_[i_para_dim]++;
     for (IndexingType i_order{}; i_order < orders[i_para_dim]; i_order++) {
+      // u' * w - w' * u
+      auto numerator =
+          (derivative.GetNumeratorSpline().DerivativeWRTParametricDimension(
+               order_) *
+           derivative.GetWeightFunctionSpline()) -
+          (derivative.GetWeightFunctionSpline()
+               .DerivativeWRTParametricDimension(order_) *
+           derivative.GetNumeratorSpline());
+      // Deriving a constant does not reduce the degree
+      if (derivative.GetDegrees()[i_para_dim] > 0) {
+        numerator.OrderElevateAlongParametricDimension(i_para_dim);
+      }
       derivative = RationalBezierSpline(
-          // u' * w - w' * u
-          ((derivative.GetNumeratorSpline().DerivativeWRTParametricDimension(
-                order_) *
-            derivative.GetWeightFunctionSpline()) -
-           (derivative.GetWeightFunctionSpline()
-                .DerivativeWRTParametricDimension(order_) *
-            derivative.GetNumeratorSpline()))
-              .OrderElevateAlongParametricDimension(i_para_dim),
+          numerator,
           // v^2
           derivative.GetWeightFunctionSpline() *
               derivative.GetWeightFunctionSpline());
-- 
2.43.0


From da63f20e387a9db423a9a39384d8808784f93926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:30 +0000
Subject: [PATCH 05/28] fix: default scalar type of splines names the member
 type of Point

---
 src/bezier_spline.hpp          | 2 +-
 src/rational_bezier_spline.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bezier_spline.hpp b/src/bezier_spline.hpp
index 9b0afc0..397f9f1 100644
--- a/src/bezier_spline.hpp
+++ b/src/bezier_spline.hpp
@@ -58,7 +58,7 @@ class RationalBezierSpline;
  * (e.g. double / AD-Type)
  */
 template <std::size_t parametric_dimension, typename PhysicalPointType,
-          typename ScalarType = typename PhysicalPointType::Scalar>
+          typename ScalarType = typename PhysicalPointType::ScalarType_>
 class BezierSpline {
   // Friend declaration
   template <std::size_t parent_parametric_dimension,
diff --git a/src/rational_bezier_spline.hpp b/src/rational_bezier_spline.hpp
index 8689289..4109e37 100644
--- a/src/rational_bezier_spline.hpp
+++ b/src/rational_bezier_spline.hpp
@@ -48,7 +48,7 @@ class BezierSpline;
  * (e.g. double / AD-Type)
  */
 template <std::size_t parametric_dimension, typename PhysicalPointType,
-          typename ScalarType = typename PhysicalPointType::Scalar>
+          typename ScalarType = typename PhysicalPointType::ScalarType_>
 class RationalBezierSpline {
  private:
   // Aliases
-- 
2.43.0


From add21a11c0c83f8db248f0e26041a4a9680e1fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 06/28] fix: make composition with a group of splines usable

---
 src/bezier_spline.inc | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 9ec8afd..2f48609 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -1074,18 +1074,15 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::Compose(
   ReturnType composition_group;
   composition_group.reserve(number_of_splines);
 
-  // Check if the inner function fits into the unit cube
-  if (!inner_function_group.FitsIntoUnitCube()) {
-    utils::Logger::TerminatingError(
-        "Inner function must fit unit cube to "
-        "perform composition");
+  // Check if the inner functions fit into the unit cube
+  for (const auto& inner_function : inner_function_group) {
+    if (!inner_function.FitsIntoUnitCube()) {
+      utils::Logger::TerminatingError(
+          "Inner function must fit unit cube to "
+          "perform composition");
+    }
   }
 
-  // Check Dimensions
-  static_assert(
-      SplineType::PhysicalPointType_::kSpatialDimension == parametric_dimension,
-      "Dimension mismatch");
-
   for (IndexingType i_spline{}; i_spline < number_of_splines; i_spline++) {
     composition_group.push_back(Compose(inner_function_group[i_spline]));
   }
-- 
2.43.0


From 48b4f8f23063254f13ecab23aa6af278d8a23ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:03 +0000
Subject: [PATCH 07/28] fix: check the unit cube in compositions of rational
 with rational splines

---
 src/rational_bezier_spline.hpp | 6 ++++++
 src/rational_bezier_spline.inc | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/src/rational_bezier_spline.hpp b/src/rational_bezier_spline.hpp
index 4109e37..54ae7ac 100644
--- a/src/rational_bezier_spline.hpp
+++ b/src/rational_bezier_spline.hpp
@@ -511,6 +511,12 @@ class RationalBezierSpline {
   Compose(const RationalBezierSpline<parametric_dimension_inner_spline,
                                      PointTypeRHS, ScalarRHS>& inner_function)
       const {
+    // Check if the inner function fits into the unit cube
+    if (!inner_function.FitsIntoUnitCube()) {
+      utils::Logger::TerminatingError(
+          "Inner function must fit unit cube to "
+          "perform composition");
+    }
     return RationalBezierSpline<parametric_dimension_inner_spline,
                                 PhysicalPointType,
                                 decltype(ScalarType_{} * ScalarRHS{})>{
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index f2dd639..8dc6bef 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -784,6 +784,13 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
         const RationalBezierSpline<parametric_dimension_inner_spline,
                                    PointTypeRHS, ScalarRHS> &inner_function)
         const {
+  // Check if the inner function fits into the unit cube
+  if (!inner_function.FitsIntoUnitCube()) {
+    utils::Logger::TerminatingError(
+        "Inner function must fit unit cube to "
+        "perform composition");
+  }
+
   // Return value Spline type
   using ReturnSplineType =
       RationalBezierSpline<parametric_dimension_inner_spline,
-- 
2.43.0


From dbcdea8d9900726c0f0b95fd580bb2465550fa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:46 +0000
Subject: [PATCH 08/28] fix: do not read past the data when encoding a partial
 base64 group

---
 src/utils/base64.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/base64.hpp b/src/utils/base64.hpp
index 1ba3576..5356380 100644
--- a/src/utils/base64.hpp
+++ b/src/utils/base64.hpp
@@ -88,7 +88,7 @@ class Base64_ {
       std::enable_if_t<!type_traits::isPoint_v<BaseType>, void*> = nullptr>
   static std::string Encode(const std::vector<BaseType>& data_vector) {
     const ByteRepresentation* vector_as_bytes =
-        reinterpret_cast<const ByteRepresentation*>(&data_vector[0]);
+        reinterpret_cast<const ByteRepresentation*>(data_vector.data());
 
     // Number of bytes for an entry
     constexpr const std::size_t length_of_entry{sizeof(BaseType{})};
@@ -113,10 +113,10 @@ class Base64_ {
       buffer[0] = buffer_index < minimum_n_bytes_required
                       ? vector_as_bytes[buffer_index + 0]
                       : 0;
-      buffer[1] = buffer_index < minimum_n_bytes_required
+      buffer[1] = buffer_index + 1 < minimum_n_bytes_required
                       ? vector_as_bytes[buffer_index + 1]
                       : 0;
-      buffer[2] = buffer_index < minimum_n_bytes_required
+      buffer[2] = buffer_index + 2 < minimum_n_bytes_required
                       ? vector_as_bytes[buffer_index + 2]
                       : 0;
 
-- 
2.43.0


From d2a997630e2c00d6ca0b536aed9a3f2e35100f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:46 +0000
Subject: [PATCH 09/28] fix: exclude padding from decoded base64 data and keep
 writes in range

---
 src/utils/base64.hpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/utils/base64.hpp b/src/utils/base64.hpp
index 5356380..1dc5255 100644
--- a/src/utils/base64.hpp
+++ b/src/utils/base64.hpp
@@ -204,14 +204,25 @@ class Base64_ {
     // Init return value
     const std::size_t number_of_groups{base64string.size() / 4};
     constexpr const std::size_t length_of_entry{sizeof(OutputType{})};
-    const std::size_t number_of_output_values{(number_of_groups * 3) /
-                                              length_of_entry};
+    // Padding characters do not encode any data
+    std::size_t number_of_padding_characters{};
+    while (number_of_padding_characters < 2 &&
+           number_of_padding_characters < base64string.size() &&
+           base64string[base64string.size() - 1 -
+                        number_of_padding_characters] == '=') {
+      number_of_padding_characters++;
+    }
+    const std::size_t number_of_output_values{
+        (number_of_groups * 3 - number_of_padding_characters) /
+        length_of_entry};
+    const std::size_t number_of_bytes{number_of_output_values *
+                                      length_of_entry};
     std::vector<OutputType> return_value;
     return_value.resize(number_of_output_values);
 
     // Access as byte stream
     ByteRepresentation* vector_as_bytes =
-        reinterpret_cast<ByteRepresentation*>(&return_value[0]);
+        reinterpret_cast<ByteRepresentation*>(return_value.data());
 
     // Start the reverse process
     for (std::size_t i_group{}; i_group < number_of_groups; i_group++) {
@@ -219,21 +230,21 @@ class Base64_ {
       std::array<unsigned, 4> buffer{};
       for (unsigned i{}; i < 4; i++) {
         buffer[i] = base64string[buffer_index + i] != '='
-                        ? char_decode_table[static_cast<unsigned>(
+                        ? char_decode_table[static_cast<unsigned char>(
                               base64string[buffer_index + i])]
                         : 255;
       }
 
       // Write bytes
-      if (buffer[1] != 255) {
+      if (buffer[1] != 255 && i_group * 3 < number_of_bytes) {
         vector_as_bytes[i_group * 3] =
             ((buffer[0] & 0x3f) << 2) + ((buffer[1] & 0x30) >> 4);
       }
-      if (buffer[2] != 255) {
+      if (buffer[2] != 255 && i_group * 3 + 1 < number_of_bytes) {
         vector_as_bytes[i_group * 3 + 1] =
             ((buffer[1] & 0x0f) << 4) + ((buffer[2] & 0x3c) >> 2);
       }
-      if (buffer[3] != 255) {
+      if (buffer[3] != 255 && i_group * 3 + 2 < number_of_bytes) {
         vector_as_bytes[i_group * 3 + 2] =
             ((buffer[2] & 0x03) << 6) + ((buffer[3] & 0x3f) >> 0);
       }
-- 
2.43.0


From ef0f5cfe48bef69cf48b10944081d46a8cc296b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 10/28] fix: keep log files open after a terminating error,
 reopening discarded all entries

---
 src/utils/logger.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/utils/logger.hpp b/src/utils/logger.hpp
index a74c5a9..1a59910 100644
--- a/src/utils/logger.hpp
+++ b/src/utils/logger.hpp
@@ -310,8 +310,8 @@ class Logger {
                  << "]" << GetTimeStamp_() << " : " << error_text << "\n";
     }
 #endif
-    // Close file streams in order to save error files
-    close();
+    // Save error files (without closing, as reopening would discard them)
+    flush();
     // Throw exception
     throw ExceptionType(error_text);
   }
@@ -354,6 +354,15 @@ class Logger {
 #endif
   }
 
+  /// Write pending file output
+  void flush() {
+#ifdef ENABLE_LOGGING
+    log_file.flush();
+    warning_file.flush();
+    error_file.flush();
+#endif
+  }
+
   /// Close File-Streams to save log files
   void close() {
 #ifdef ENABLE_LOGGING
-- 
2.43.0


From 3272f74518f0e8cdc5a53e8962aea145bf4b4101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 11/28] fix: check the number of derivatives in the in-place
 difference

---
 src/utils/computational_differentiation/algo_diff_type.inc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/computational_differentiation/algo_diff_type.inc b/src/utils/computational_differentiation/algo_diff_type.inc
index 9eb3385..aeee5a9 100644
--- a/src/utils/computational_differentiation/algo_diff_type.inc
+++ b/src/utils/computational_differentiation/algo_diff_type.inc
@@ -88,6 +88,7 @@ template <typename Scalar, std::size_t numberOfDerivatives>
 constexpr AlgoDiffType<Scalar, numberOfDerivatives>&
 AlgoDiffType<Scalar, numberOfDerivatives>::operator-=(
     const AlgoDiffType<Scalar, numberOfDerivatives>& b) {
+  assert(b.GetNumberOfDerivatives() == GetNumberOfDerivatives());
   v_ -= b.v_;
   for (IndexingType_ i{}; i < GetNumberOfDerivatives(); i++) {
     d_[i] -= b.d_[i];
-- 
2.43.0


From a3747658fa4c43a106ac518ae29fa557da0a7bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 12/28] fix: arc sine and arc cosine of nested differentiation
 numbers

---
 src/utils/computational_differentiation/algo_diff_type.inc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/computational_differentiation/algo_diff_type.inc b/src/utils/computational_differentiation/algo_diff_type.inc
index aeee5a9..f351341 100644
--- a/src/utils/computational_differentiation/algo_diff_type.inc
+++ b/src/utils/computational_differentiation/algo_diff_type.inc
@@ -411,8 +411,8 @@ constexpr AlgoDiffType<Scalar, numberOfDerivatives> acos(
     auxiliary_value = -1. / std::sqrt(1 - rad.v_ * rad.v_);
     result_value.v_ = std::acos(rad.v_);
   } else {
-    auxiliary_value = -1. / sqrt(1 - rad.v_ * rad.v_);
-    result_value.v_ = cos(rad.v_);
+    auxiliary_value = -1. / sqrt(1. - rad.v_ * rad.v_);
+    result_value.v_ = acos(rad.v_);
   }
   for (std::size_t i{}; i < rad.GetNumberOfDerivatives(); i++) {
     result_value.d_[i] *= auxiliary_value;
@@ -430,7 +430,7 @@ constexpr AlgoDiffType<Scalar, numberOfDerivatives> asin(
     auxiliary_value = 1. / std::sqrt(1 - rad.v_ * rad.v_);
     result_value.v_ = std::asin(rad.v_);
   } else {
-    auxiliary_value = 1. / std::sqrt(1 - rad.v_ * rad.v_);
+    auxiliary_value = 1. / sqrt(1. - rad.v_ * rad.v_);
     result_value.v_ = asin(rad.v_);
   }
   for (std::size_t i{}; i < rad.GetNumberOfDerivatives(); i++) {
-- 
2.43.0


From f6164ce7bd75de3f79bc6d7a81248a0cc6884d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 13/28] fix: value of a power with vanishing base and exponent
 below one

---
 src/utils/computational_differentiation/algo_diff_type.inc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/computational_differentiation/algo_diff_type.inc b/src/utils/computational_differentiation/algo_diff_type.inc
index f351341..d557d5f 100644
--- a/src/utils/computational_differentiation/algo_diff_type.inc
+++ b/src/utils/computational_differentiation/algo_diff_type.inc
@@ -263,14 +263,15 @@ constexpr AlgoDiffType<Scalar, numberOfDerivatives> pow(
     const AlgoDiffType<Scalar, numberOfDerivatives>& base,
     const Scalar& power) {
   Scalar tmp;
+  AlgoDiffType<Scalar, numberOfDerivatives> result_value{base};
   if constexpr (std::is_arithmetic_v<Scalar>) {
     // Use STD namespace function
     tmp = std::pow(base.v_, power - 1.0);
+    result_value.v_ = std::pow(base.v_, power);
   } else {
     tmp = pow(base.v_, power - 1.0);
+    result_value.v_ = pow(base.v_, power);
   }
-  AlgoDiffType<Scalar, numberOfDerivatives> result_value{base};
-  result_value.v_ *= tmp;
   for (std::size_t i{}; i < base.GetNumberOfDerivatives(); i++) {
     result_value.d_[i] *= power * tmp;
   }
-- 
2.43.0


From 4fe838db72803682b03880804e2a8da061ae7221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 14/28] fix: scale a point with one of its own components

---
 src/point.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/point.hpp b/src/point.hpp
index 8a2f8e4..bc98ca3 100644
--- a/src/point.hpp
+++ b/src/point.hpp
@@ -107,7 +107,9 @@ class Point : public std::array<BaseType, spatial_dimension> {
 
   /// Multiplication with a scalar
   constexpr Point& operator*=(const BaseType& scale) {
-    for (unsigned int i = 0; i < spatial_dimension; ++i) (*this)[i] *= scale;
+    // Copy, as scale might be a component of this point
+    const BaseType factor{scale};
+    for (unsigned int i = 0; i < spatial_dimension; ++i) (*this)[i] *= factor;
     return (*this);
   }
 
-- 
2.43.0


From dc5b14706717723d33690999866f40a50413bd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 15/28] fix: in-place spline transformations by parts of the
 spline itself

---
 src/bezier_spline.inc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 2f48609..97b4250 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -518,8 +518,10 @@ template <std::size_t parametric_dimension, typename PhysicalPointType,
 constexpr BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>&
 BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator*=(
     const ScalarType& scalar) {
+  // Copy, as scalar might be part of this spline
+  const ScalarType factor{scalar};
   for (std::size_t i{}; i < GetNumberOfControlPoints(); i++) {
-    control_points[i] *= scalar;
+    control_points[i] *= factor;
   }
   return (*this);
 }
@@ -529,8 +531,10 @@ template <std::size_t parametric_dimension, typename PhysicalPointType,
 constexpr BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>&
 BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator+=(
     const PhysicalPointType& point_shift) {
+  // Copy, as point_shift might be a control point of this spline
+  const PhysicalPointType shift{point_shift};
   for (std::size_t i{}; i < GetNumberOfControlPoints(); i++) {
-    control_points[i] += point_shift;
+    control_points[i] += shift;
   }
   return (*this);
 }
@@ -550,8 +554,10 @@ template <std::size_t parametric_dimension, typename PhysicalPointType,
 constexpr BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>&
 BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator-=(
     const PhysicalPointType& point_shift) {
+  // Copy, as point_shift might be a control point of this spline
+  const PhysicalPointType shift{point_shift};
   for (std::size_t i{}; i < GetNumberOfControlPoints(); i++) {
-    control_points[i] -= point_shift;
+    control_points[i] -= shift;
   }
   return (*this);
 }
@@ -829,15 +835,16 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
                       const PhysicalPointType& scale_vector) {
   utils::Logger::ExtendedInformation(
       "Starting scaling and transposing spline to move bounds");
+  // Copies, as the arguments might be control points of this spline
+  const PhysicalPointType shift{transposition}, scale{scale_vector};
   for (IndexingType i{}; i < GetNumberOfControlPoints(); i++) {
     if constexpr (std::is_scalar_v<PhysicalPointType>) {
-      control_points[i] = (transposition + control_points[i]) * scale_vector;
+      control_points[i] = (shift + control_points[i]) * scale;
     } else {
       for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
            i_dim++) {
         control_points[i][i_dim] =
-            (transposition[i_dim] + control_points[i][i_dim]) *
-            scale_vector[i_dim];
+            (shift[i_dim] + control_points[i][i_dim]) * scale[i_dim];
       }
     }
   }
-- 
2.43.0


From 15cbf2a61fe36d892375c26c1e23461919bb3f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 16/28] fix: in-place shifts of rational splines by parts of
 the spline itself

---
 src/rational_bezier_spline.inc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 8dc6bef..a762d56 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -580,10 +580,12 @@ constexpr RationalBezierSpline<parametric_dimension, PhysicalPointType,
     &RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     operator+=(const PhysicalPointType &point_shift) {
   // Add up contributions to control points with weights
+  // Copy, as point_shift might be a control point of this spline
+  const PhysicalPointType shift{point_shift};
   for (IndexingType i_ctps{};
        i_ctps < weighted_spline_.GetNumberOfControlPoints(); i_ctps++) {
     weighted_spline_.control_points[i_ctps] +=
-        point_shift * weight_function_.control_points[i_ctps];
+        shift * weight_function_.control_points[i_ctps];
   }
   // Check sanity
   assert(CheckSplineCompatibility());
@@ -609,10 +611,12 @@ constexpr RationalBezierSpline<parametric_dimension, PhysicalPointType,
     &RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     operator-=(const PhysicalPointType &point_shift) {
   // Add up contributions to control points with weights
+  // Copy, as point_shift might be a control point of this spline
+  const PhysicalPointType shift{point_shift};
   for (IndexingType i_ctps{};
        i_ctps < weighted_spline_.GetNumberOfControlPoints(); i_ctps++) {
     weighted_spline_.control_points[i_ctps] -=
-        point_shift * weight_function_.control_points[i_ctps];
+        shift * weight_function_.control_points[i_ctps];
   }
   return (*this);
 }
-- 
2.43.0


From 60b9ad450f9d84fd9c2cb3434ab5c10446f4f345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 17/28] fix: keep the integral type in IntPower

---
 src/utils/algorithms/int_power.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils/algorithms/int_power.hpp b/src/utils/algorithms/int_power.hpp
index f3f627f..772a37c 100644
--- a/src/utils/algorithms/int_power.hpp
+++ b/src/utils/algorithms/int_power.hpp
@@ -25,6 +25,8 @@ SOFTWARE.
 #ifndef UTILS_ALGORITHMS_INT_POWER_HPP
 #define UTILS_ALGORITHMS_INT_POWER_HPP
 
+#include <type_traits>
+
 namespace bezman::utils::algorithms {
 
 /**
@@ -37,7 +39,8 @@ constexpr IntegralType IntPower(const IntegralType& base,
   if (power == 0) return 1;
   if (power == 1) return base;
 
-  int tmp = IntPower(base, power / 2);
+  const IntegralType tmp =
+      IntPower(base, static_cast<IntegralType>(power / 2));
   if ((power % 2) == 0) {
     return tmp * tmp;
   } else {
-- 
2.43.0


From f7e9adeed988497ede0a646771f3a861cf88af5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:43 +0000
Subject: [PATCH 18/28] fix: headers include what they use

---
 src/utils/algorithms/bernstein_polynomial.hpp       | 1 +
 src/utils/type_traits/is_bezier_spline.hpp          | 2 ++
 src/utils/type_traits/is_rational_bezier_spline.hpp | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/src/utils/algorithms/bernstein_polynomial.hpp b/src/utils/algorithms/bernstein_polynomial.hpp
index 05fb16c..77ff5f4 100644
--- a/src/utils/algorithms/bernstein_polynomial.hpp
+++ b/src/utils/algorithms/bernstein_polynomial.hpp
@@ -25,6 +25,7 @@ SOFTWARE.
 #ifndef UTILS_ALGORITHMS_BERNSTEIN_POLYNOMIAL_HPP
 #define UTILS_ALGORITHMS_BERNSTEIN_POLYNOMIAL_HPP
 
+#include <algorithm>
 #include <cassert>
 #include <vector>
 
diff --git a/src/utils/type_traits/is_bezier_spline.hpp b/src/utils/type_traits/is_bezier_spline.hpp
index abcdd70..0a3fa44 100644
--- a/src/utils/type_traits/is_bezier_spline.hpp
+++ b/src/utils/type_traits/is_bezier_spline.hpp
@@ -25,6 +25,8 @@ SOFTWARE.
 #ifndef UTILS_TYPE_TRAITS_IS_BEZIER_SPLINE_HPP
 #define UTILS_TYPE_TRAITS_IS_BEZIER_SPLINE_HPP
 
+#include <cstddef>
+
 namespace bezman {
 // Forward declaration for later use
 template <std::size_t parametric_dimension, typename PhysicalPointType,
diff --git a/src/utils/type_traits/is_rational_bezier_spline.hpp b/src/utils/type_traits/is_rational_bezier_spline.hpp
index b0088ce..3f46123 100644
--- a/src/utils/type_traits/is_rational_bezier_spline.hpp
+++ b/src/utils/type_traits/is_rational_bezier_spline.hpp
@@ -25,6 +25,8 @@ SOFTWARE.
 #ifndef UTILS_TYPE_TRAITS_IS_RATIONAL_BEZIER_SPLINE_HPP
 #define UTILS_TYPE_TRAITS_IS_RATIONAL_BEZIER_SPLINE_HPP
 
+#include <cstddef>
+
 namespace bezman {
 // Forward declaration for later use
 template <std::size_t parametric_dimension, typename PhysicalPointType,
-- 
2.43.0


From 7ec2d1eefc514d4a0639f3def7a65f1a51d71702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 19/28] fix: divide nested differentiation numbers by their
 scalar type

---
 src/utils/computational_differentiation/algo_diff_type.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/computational_differentiation/algo_diff_type.inc b/src/utils/computational_differentiation/algo_diff_type.inc
index d557d5f..a132f30 100644
--- a/src/utils/computational_differentiation/algo_diff_type.inc
+++ b/src/utils/computational_differentiation/algo_diff_type.inc
@@ -186,7 +186,7 @@ AlgoDiffType<Scalar, numberOfDerivatives>::operator/(const Scalar& b) const {
 template <typename Scalar, std::size_t numberOfDerivatives>
 constexpr AlgoDiffType<Scalar, numberOfDerivatives>&
 AlgoDiffType<Scalar, numberOfDerivatives>::operator/=(const Scalar& b) {
-  const Scalar inverse_b{1 / b};
+  const Scalar inverse_b = 1.0 / b;
   v_ *= inverse_b;
   for (IndexingType_ i{}; i < GetNumberOfDerivatives(); i++) {
     d_[i] *= inverse_b;
-- 
2.43.0


From 5b604c0a70b25c828241aff8e4d4f3146f052895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 20/28] fix: scalar times point for every scalar type

---
 src/point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/point.hpp b/src/point.hpp
index bc98ca3..38b7b2f 100644
--- a/src/point.hpp
+++ b/src/point.hpp
@@ -121,7 +121,7 @@ class Point : public std::array<BaseType, spatial_dimension> {
   }
 
   /// Friend injection for reversed arguments (facilitates readability)
-  friend constexpr Point operator*(const double& scale, const Point& point) {
+  friend constexpr Point operator*(const BaseType& scale, const Point& point) {
     return point * scale;
   }
 
-- 
2.43.0


From 29585b987af7438e89052d98812fc955c9d1e715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 21/28] fix: order elevation for splines over differentiation
 numbers

---
 src/bezier_spline.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 97b4250..93d9e56 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -202,7 +202,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
         control_points[global_index] =
             control_points[first_index_in_group + index_in_group +
                            index_offsets[par_dim] * i] *
-                (1 - factor) +
+                (static_cast<ScalarType_>(1) - factor) +
             control_points[first_index_in_group + index_in_group +
                            index_offsets[par_dim] * (i - 1)] *
                 factor;
-- 
2.43.0


From 54fe8073b4a191fe34f658ad77e41a68e6f849d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:00 +0000
Subject: [PATCH 22/28] fix: spline difference with a right-hand side of higher
 degree never terminates

---
 src/bezier_spline.inc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 93d9e56..3a7ffe8 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -678,18 +678,19 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator-(
   // Increase the order of return_spline to be greater or equal to the
   // RHSs order
   for (IndexingType par_dim{0}; par_dim < parametric_dimension; par_dim++) {
-    while (rhs.GetDegrees()[par_dim] > degrees[par_dim]) {
+    while (rhs.GetDegrees()[par_dim] > return_spline.GetDegrees()[par_dim]) {
       return_spline.OrderElevateAlongParametricDimension(par_dim);
     }
   }
   // Do the same thing to the rhs
   for (IndexingType par_dim{0}; par_dim < parametric_dimension; par_dim++) {
-    while (rhs.GetDegrees()[par_dim] < degrees[par_dim]) {
+    while (rhs.GetDegrees()[par_dim] < return_spline.GetDegrees()[par_dim]) {
       rhs.OrderElevateAlongParametricDimension(par_dim);
     }
   }
   // Add control points
-  for (IndexingType i_ctps{}; i_ctps < GetNumberOfControlPoints(); i_ctps++) {
+  for (IndexingType i_ctps{};
+       i_ctps < return_spline.GetNumberOfControlPoints(); i_ctps++) {
     return_spline.control_points[i_ctps] -= rhs.control_points[i_ctps];
   }
   return return_spline;
-- 
2.43.0


From 71ace925df0e2caf0bec33248a90620a800cecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:30 +0000
Subject: [PATCH 23/28] fix: derivative evaluation did not compile for splines
 over differentiation numbers

---
 src/rational_bezier_spline.inc                | 2 +-
 src/utils/algorithms/bernstein_polynomial.hpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index a762d56..dd3d013 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -421,7 +421,7 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
       // Substract low-order function
       for (std::size_t i_basis{}; i_basis < n_basis_functions; i_basis++) {
         derivatives[i_deriv][i_basis] -=
-            binom_fact * w_derivatives[j_deriv] *
+            static_cast<ScalarType>(binom_fact) * w_derivatives[j_deriv] *
             derivatives[i_deriv - j_deriv][i_basis];
       }
     }
diff --git a/src/utils/algorithms/bernstein_polynomial.hpp b/src/utils/algorithms/bernstein_polynomial.hpp
index 77ff5f4..dd2b175 100644
--- a/src/utils/algorithms/bernstein_polynomial.hpp
+++ b/src/utils/algorithms/bernstein_polynomial.hpp
@@ -125,7 +125,8 @@ class BernsteinPolynomial {
         for (std::size_t k{k_min}; k <= std::min(i_basis, deriv); k++) {
           // Check if is even using binary operation
           const ScalarType eval_v =
-              utils::FastBinomialCoefficient::choose(deriv, k) *
+              static_cast<ScalarType>(
+                  utils::FastBinomialCoefficient::choose(deriv, k)) *
               basis[i_basis - k];
           evaluations[i_basis] += ((k + deriv) & 1) ? -eval_v : eval_v;
         }
-- 
2.43.0


From 20c949c86aabfc55b0ed5d9d1ef4943fa5d6cf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 24/28] fix: splitting did not compile for splines over
 differentiation numbers

---
 src/bezier_spline.hpp          |  2 ++
 src/bezier_spline.inc          | 14 +++++++++-----
 src/rational_bezier_spline.inc |  2 +-
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/bezier_spline.hpp b/src/bezier_spline.hpp
index 397f9f1..e2d419e 100644
--- a/src/bezier_spline.hpp
+++ b/src/bezier_spline.hpp
@@ -29,6 +29,8 @@ SOFTWARE.
 #include <array>
 #include <cassert>
 #include <numeric>
+#include <sstream>
+#include <string>
 #include <vector>
 
 #include "bezman/src/point.hpp"
diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 3a7ffe8..427fb36 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -1349,10 +1349,15 @@ BezierSpline<parametric_dimension, PhysicalPointType,
              ScalarType>::SplitAtPosition(const ScalarType& splitting_plane,
                                           const IndexingType
                                               splitting_dimension) const {
+  // Streamed, as not every scalar type can be converted using std::to_string
+  const auto position = [&splitting_plane]() {
+    std::ostringstream out{};
+    out << splitting_plane;
+    return out.str();
+  }();
   utils::Logger::ExtendedInformation(
       "Splitting spline along parametric dimension " +
-      std::to_string(splitting_dimension) + " at position " +
-      std::to_string(splitting_plane));
+      std::to_string(splitting_dimension) + " at position " + position);
   /*
    * Notation:
    * A group the number of all starting points that are subsequent, i.e. the
@@ -1379,8 +1384,7 @@ BezierSpline<parametric_dimension, PhysicalPointType,
 
   // Check bounds (as default knot-vector is [0,0,..,1,1,...])
   if (!(splitting_plane > 0. && splitting_plane < 1.)) {
-    utils::Logger::TerminatingError("Split Plane is at " +
-                                    std::to_string(splitting_plane) +
+    utils::Logger::TerminatingError("Split Plane is at " + position +
                                     ", which is out of bounds (0,1)");
   }
 
@@ -1465,7 +1469,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
   return_value.push_back(split_spline[0]);
   for (std::size_t i_split{1}; i_split < splitting_planes.size(); i_split++) {
     // Calculate the position of the split position in the remaining spline
-    const double split_in_remaining_part =
+    const ScalarType split_in_remaining_part =
         (splitting_planes[i_split] - splitting_planes[i_split - 1]) /
         (1. - splitting_planes[i_split - 1]);
     // Split remainder
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index dd3d013..40afae8 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -492,7 +492,7 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
   return_value.push_back(split_spline[0]);
   for (std::size_t i_split{1}; i_split < splitting_planes.size(); i_split++) {
     // Calculate the position of the split position in the remaining spline
-    const double split_in_remaining_part =
+    const ScalarType split_in_remaining_part =
         (splitting_planes[i_split] - splitting_planes[i_split - 1]) /
         (1. - splitting_planes[i_split - 1]);
     // Split remainder
-- 
2.43.0


From 9381eded10ef45c135bbde31e09abe6bb6a71844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:51 +0000
Subject: [PATCH 25/28] fix: rational derivatives did not compile for splines
 over differentiation numbers

---
 src/rational_bezier_spline.inc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 40afae8..f509d29 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -312,7 +312,8 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
       }
       // Substract low-order function
       derivatives[i_deriv] -=
-          binom_fact * w_derivatives[j_deriv] * derivatives[i_deriv - j_deriv];
+          static_cast<ScalarType>(binom_fact) * w_derivatives[j_deriv] *
+          derivatives[i_deriv - j_deriv];
     }
     // Finalize
     derivatives[i_deriv] *= inv_w_fact;
-- 
2.43.0


From 5ac25c01eb752e63c7b16bd3575056a6c6159369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:51 +0000
Subject: [PATCH 26/28] fix: splines with values in a differentiation type were
 not treated as scalar splines

---
 src/bezier_spline.hpp              |  1 +
 src/bezier_spline.inc              | 32 +++++++++++++++++++-----------
 src/rational_bezier_spline.inc     |  9 ++++++---
 src/utils/type_traits/is_point.hpp |  9 +++++++++
 4 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/bezier_spline.hpp b/src/bezier_spline.hpp
index e2d419e..a2e70c0 100644
--- a/src/bezier_spline.hpp
+++ b/src/bezier_spline.hpp
@@ -39,6 +39,7 @@ SOFTWARE.
 #include "bezman/src/utils/fastbinomialcoefficient.hpp"
 #include "bezman/src/utils/logger.hpp"
 #include "bezman/src/utils/type_traits/is_bezier_spline.hpp"
+#include "bezman/src/utils/type_traits/is_point.hpp"
 #include "bezman/src/utils/type_traits/is_rational_bezier_spline.hpp"
 
 namespace bezman {
diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 427fb36..a75f843 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -727,7 +727,8 @@ constexpr BezierSpline<parametric_dimension, ScalarType, ScalarType>
 BezierSpline<parametric_dimension, PhysicalPointType,
              ScalarType>::ExtractDimension(const IndexingType& dimension)
     const {
-  if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
+  if constexpr (utils::type_traits::isScalarValued_v<PhysicalPointType,
+                                                     ScalarType>) {
     if (dimension != 0ul) {
       utils::Logger::TerminatingError(
           "Extraction of Scalar-value spline requested");
@@ -753,7 +754,8 @@ constexpr BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>
 BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::RaisePower(
     const IndexingType power) const {
   // Implements Recursive function of integer powers (can be storage intense)
-  if constexpr (std::is_scalar_v<PhysicalPointType>) {
+  if constexpr (utils::type_traits::isScalarValued_v<PhysicalPointType,
+                                                     ScalarType>) {
     if (power == 0) {
       utils::Logger::Error("Raising to 0 is inefficient. Please revisit");
       return BezierSpline<parametric_dimension, ScalarType_, ScalarType_>{
@@ -793,7 +795,8 @@ BezierSpline<parametric_dimension, PhysicalPointType,
   }
   PhysicalPointType maximum{control_points[0]};
   for (IndexingType i{1}; i < GetNumberOfControlPoints(); i++) {
-    if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
+    if constexpr (utils::type_traits::isScalarValued_v<PhysicalPointType,
+                                                       ScalarType>) {
       maximum = std::max(maximum, control_points[i]);
     } else {
       for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
@@ -816,7 +819,8 @@ BezierSpline<parametric_dimension, PhysicalPointType,
   }
   PhysicalPointType minimum{control_points[0]};
   for (IndexingType i{1}; i < GetNumberOfControlPoints(); i++) {
-    if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
+    if constexpr (utils::type_traits::isScalarValued_v<PhysicalPointType,
+                                                       ScalarType>) {
       minimum = std::min(minimum, control_points[i]);
     } else {
       for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
@@ -839,7 +843,8 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
   // Copies, as the arguments might be control points of this spline
   const PhysicalPointType shift{transposition}, scale{scale_vector};
   for (IndexingType i{}; i < GetNumberOfControlPoints(); i++) {
-    if constexpr (std::is_scalar_v<PhysicalPointType>) {
+    if constexpr (utils::type_traits::isScalarValued_v<PhysicalPointType,
+                                                       ScalarType>) {
       control_points[i] = (shift + control_points[i]) * scale;
     } else {
       for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
@@ -860,7 +865,8 @@ BezierSpline<parametric_dimension, PhysicalPointType,
   const auto maximum_corner = MaximumCorner();
   const auto minimum_corner = MinimumCorner();
   auto scale_vector = maximum_corner - minimum_corner;
-  if constexpr (std::is_scalar_v<PhysicalPointType>) {
+  if constexpr (utils::type_traits::isScalarValued_v<PhysicalPointType,
+                                                     ScalarType>) {
     scale_vector = static_cast<ScalarType>(1) / scale_vector;
   } else {
     for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
@@ -877,7 +883,8 @@ constexpr bool BezierSpline<parametric_dimension, PhysicalPointType,
                             ScalarType>::FitsIntoUnitCube() const {
   const auto maximum_corner = MaximumCorner();
   const auto minimum_corner = MinimumCorner();
-  if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
+  if constexpr (utils::type_traits::isScalarValued_v<PhysicalPointType,
+                                                     ScalarType>) {
     if ((maximum_corner > static_cast<ScalarType>(1)) ||
         (minimum_corner < static_cast<ScalarType>(0))) {
       return false;
@@ -945,7 +952,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::Compose(
   }
 
   // Check Dimensions (Scalar Value splines to be treaded as kSpDim = 1)
-  if constexpr (std::is_arithmetic_v<PointTypeRHS>) {
+  if constexpr (utils::type_traits::isScalarValued_v<PointTypeRHS, ScalarRHS>) {
     static_assert(parametric_dimension == 1, "Dimension mismatch");
   } else {
     static_assert(PointTypeRHS::kSpatialDimension == parametric_dimension,
@@ -971,7 +978,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
   }
 
   // Check Dimensions (Scalar Value splines to be treaded as kSpDim = 1)
-  if constexpr (std::is_arithmetic_v<PointTypeRHS>) {
+  if constexpr (utils::type_traits::isScalarValued_v<PointTypeRHS, ScalarRHS>) {
     static_assert(parametric_dimension == 1, "Dimension mismatch");
   } else {
     static_assert(PointTypeRHS::kSpatialDimension == parametric_dimension,
@@ -996,7 +1003,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::Compose(
   }
 
   // Check Dimensions (Scalar Value splines to be treaded as kSpDim = 1)
-  if constexpr (std::is_arithmetic_v<PointTypeRHS>) {
+  if constexpr (utils::type_traits::isScalarValued_v<PointTypeRHS, ScalarRHS>) {
     static_assert(parametric_dimension == 1, "Dimension mismatch");
   } else {
     static_assert(PointTypeRHS::kSpatialDimension == parametric_dimension,
@@ -1033,7 +1040,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
   }
 
   // Check Dimensions (Scalar Value splines to be treaded as kSpDim = 1)
-  if constexpr (std::is_arithmetic_v<PointTypeRHS>) {
+  if constexpr (utils::type_traits::isScalarValued_v<PointTypeRHS, ScalarRHS>) {
     static_assert(parametric_dimension == 1, "Dimension mismatch");
   } else {
     static_assert(PointTypeRHS::kSpatialDimension == parametric_dimension,
@@ -1115,7 +1122,8 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
       SplineType::kParametricDimensions;
 
   // Sanity check
-  if constexpr (std::is_arithmetic_v<PointTypeInnerFunction>) {
+  if constexpr (utils::type_traits::isScalarValued_v<PointTypeInnerFunction,
+                                                     ScalarTypeInnerFunction>) {
     static_assert(parametric_dimension == 1, "Dimension mismatch");
   } else {
     static_assert(
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index f509d29..9a1f964 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -831,7 +831,8 @@ constexpr bool RationalBezierSpline<parametric_dimension, PhysicalPointType,
                                     ScalarType>::FitsIntoUnitCube() const {
   const auto maximum_corner = MaximumCorner();
   const auto minimum_corner = MinimumCorner();
-  if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
+  if constexpr (utils::type_traits::isScalarValued_v<PhysicalPointType,
+                                                     ScalarType>) {
     if ((maximum_corner > static_cast<ScalarType>(1)) ||
         (minimum_corner < static_cast<ScalarType>(0))) {
       return false;
@@ -859,7 +860,8 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType,
   }
   PhysicalPointType minimum{ControlPoint(LocalToGlobalIndex(0))};
   for (IndexingType i{1}; i < GetNumberOfControlPoints(); i++) {
-    if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
+    if constexpr (utils::type_traits::isScalarValued_v<PhysicalPointType,
+                                                       ScalarType>) {
       minimum =
           std::min(minimum, GetWeightedControlPoints()[i] / GetWeights()[i]);
     } else {
@@ -886,7 +888,8 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType,
   }
   PhysicalPointType maximum{ControlPoint(LocalToGlobalIndex(0))};
   for (IndexingType i{1}; i < GetNumberOfControlPoints(); i++) {
-    if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
+    if constexpr (utils::type_traits::isScalarValued_v<PhysicalPointType,
+                                                       ScalarType>) {
       maximum =
           std::max(maximum, GetWeightedControlPoints()[i] / GetWeights()[i]);
     } else {
diff --git a/src/utils/type_traits/is_point.hpp b/src/utils/type_traits/is_point.hpp
index 77b67f6..7ffcecb 100644
--- a/src/utils/type_traits/is_point.hpp
+++ b/src/utils/type_traits/is_point.hpp
@@ -25,6 +25,8 @@ SOFTWARE.
 #ifndef UTILS_TYPE_TRAITS_IS_POINT_HPP
 #define UTILS_TYPE_TRAITS_IS_POINT_HPP
 
+#include <type_traits>
+
 #include "bezman/src/point.hpp"
 
 namespace bezman::utils::type_traits {
@@ -45,6 +47,13 @@ struct isPoint<Point<spatial_dimension, BaseType>> {
 template <typename PointType>
 inline constexpr bool isPoint_v = isPoint<PointType>::value;
 
+/// Checker if the control points of a spline are scalars, i.e., numbers or
+/// instances of its (possibly user-defined, e.g. AD-Type) scalar type
+template <typename PhysicalPointType, typename ScalarType>
+inline constexpr bool isScalarValued_v =
+    std::is_arithmetic_v<PhysicalPointType> ||
+    std::is_same_v<PhysicalPointType, ScalarType>;
+
 }  // namespace bezman::utils::type_traits
 
 #endif  // UTILS_TYPE_TRAITS_IS_POINT_HPP
-- 
2.43.0


From 65ba7de72fe6277617b9f2a124826a63b3d98061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:14 +0000
Subject: [PATCH 27/28] fix: atan of single precision differentiation numbers
 did not compile

---
 src/utils/computational_differentiation/algo_diff_type.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/computational_differentiation/algo_diff_type.inc b/src/utils/computational_differentiation/algo_diff_type.inc
index a132f30..193277a 100644
--- a/src/utils/computational_differentiation/algo_diff_type.inc
+++ b/src/utils/computational_differentiation/algo_diff_type.inc
@@ -444,7 +444,7 @@ template <typename Scalar, std::size_t numberOfDerivatives>
 constexpr AlgoDiffType<Scalar, numberOfDerivatives> atan(
     const AlgoDiffType<Scalar, numberOfDerivatives>& rad) {
   AlgoDiffType<Scalar, numberOfDerivatives> result_value{rad};
-  const Scalar auxiliary_value{1. / (1. + rad.v_ * rad.v_)};
+  const Scalar auxiliary_value = 1. / (1. + rad.v_ * rad.v_);
   if constexpr (std::is_arithmetic_v<Scalar>) {
     // Use STD namespace function
     result_value.v_ = std::atan(rad.v_);
-- 
2.43.0


From 6715dd4ac5431d6f88ad3f5f899b40ecbb850bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:14 +0000
Subject: [PATCH 28/28] fix: division and inversion of points with integral or
 differentiation type coordinates

---
 src/point.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/point.hpp b/src/point.hpp
index 38b7b2f..09db338 100644
--- a/src/point.hpp
+++ b/src/point.hpp
@@ -102,7 +102,9 @@ class Point : public std::array<BaseType, spatial_dimension> {
   /// Inversion
   constexpr Point operator-() const {
     Point inverted_point{(*this)};
-    return inverted_point * static_cast<BaseType>(-1);
+    for (unsigned int i = 0; i < spatial_dimension; ++i)
+      inverted_point[i] = -(*this)[i];
+    return inverted_point;
   }
 
   /// Multiplication with a scalar
@@ -127,8 +129,10 @@ class Point : public std::array<BaseType, spatial_dimension> {
 
   /// Division with a scalar
   constexpr Point& operator/=(const BaseType& scale) {
-    const BaseType inv_scale{static_cast<BaseType>(1.) / scale};
-    (*this) *= inv_scale;
+    // Copy, as scale might be a component of this point
+    const BaseType divisor{scale};
+    for (unsigned int i = 0; i < spatial_dimension; ++i)
+      (*this)[i] = (*this)[i] / divisor;
     return (*this);
   }
 
-- 
2.43.0

