From e854c276072eaf779c225f04715d888a4f3a78ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 01/31] fix: divide by the weight function in the rational
 ForwardEvaluate

It returned the numerator only.
---
 src/rational_bezier_spline.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 9378e1a..08582a4 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -201,8 +201,8 @@ constexpr PhysicalPointType RationalBezierSpline<
   // Check sanity
   assert(CheckSplineCompatibility());
 
-  // Evaluiere Basis Functions
-  const auto factors = weighted_spline_.BasisFunctions(par_coords);
+  // Evaluiere Basis Functions (already divided by the weight function)
+  const auto factors = UnweightedBasisFunctions(par_coords);
 
   // Initialize values
   PhysicalPointType evaluation_point{};
-- 
2.43.0


From 1a288f7de0b9d6f95158eb0d18b3f8ac0d092a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 02/31] fix: use every index in the rational variadic
 ControlPoint

The comma fold discarded all but the last index.
---
 src/rational_bezier_spline.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 08582a4..62a7db3 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -31,7 +31,7 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType,
   static_assert(sizeof...(T) == parametric_dimension,
                 "Unspecified number of indices.");
   const std::array<IndexingType, parametric_dimension> indices{
-      (static_cast<IndexingType>(index), ...)};
+      static_cast<IndexingType>(index)...};
   return ControlPoint(indices);
 }
 
-- 
2.43.0


From c78ec2d9286186ea62548e266187e39ef0648363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 03/31] fix: terminate spline subtraction when the right hand
 side has a higher degree

The elevation loop compared against the unchanged degrees of the left hand
side and never ended.
---
 src/bezier_spline.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 62a5ebb..768fac3 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -656,7 +656,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator-(
   // Increase the order of return_spline to be greater or equal to the
   // RHSs order
   for (IndexingType par_dim{0}; par_dim < parametric_dimension; par_dim++) {
-    while (rhs.GetDegrees()[par_dim] > degrees[par_dim]) {
+    while (rhs.GetDegrees()[par_dim] > return_spline.GetDegrees()[par_dim]) {
       return_spline.OrderElevateAlongParametricDimension(par_dim);
     }
   }
-- 
2.43.0


From 56bc42755cd12d53aba7b55b557ef879a9098a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:14 +0000
Subject: [PATCH 04/31] fix: return a vanishing spline for derivatives of an
 order above the degree

The degrees wrapped around and control points were read out of bounds. The
rational derivative had the same problem along dimensions of degree zero.
---
 src/bezier_spline.inc          | 13 +++++++++++++
 src/rational_bezier_spline.inc | 21 +++++++++++++--------
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 768fac3..8296d53 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -243,6 +243,19 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
         return result + "]";
       }(orders));
 
+  // Derivatives of an order higher than the degree vanish identically
+  auto vanishing_degrees = degrees;
+  bool derivative_vanishes = false;
+  for (IndexingType i_para_dim{}; i_para_dim < parametric_dimension;
+       i_para_dim++) {
+    derivative_vanishes |= orders[i_para_dim] > degrees[i_para_dim];
+    vanishing_degrees[i_para_dim] -=
+        std::min(orders[i_para_dim], degrees[i_para_dim]);
+  }
+  if (derivative_vanishes) {
+    return BezierSpline{vanishing_degrees};
+  }
+
   // Create a copy of the new degrees which will be updated in every iteration
   auto new_degrees = degrees;
   // Create a copy of control points (later be used for in place operations)
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 62a7db3..40c4eca 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -528,15 +528,20 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     std::array<IndexingType, parametric_dimension> order_{};
     order_[i_para_dim]++;
     for (IndexingType i_order{}; i_order < orders[i_para_dim]; i_order++) {
+      // u' * w - w' * u
+      auto numerator =
+          (derivative.GetNumeratorSpline().DerivativeWRTParametricDimension(
+               order_) *
+           derivative.GetWeightFunctionSpline()) -
+          (derivative.GetWeightFunctionSpline()
+               .DerivativeWRTParametricDimension(order_) *
+           derivative.GetNumeratorSpline());
+      // Differentiation does not reduce the degree of a constant
+      if (derivative.GetDegrees()[i_para_dim] > 0) {
+        numerator.OrderElevateAlongParametricDimension(i_para_dim);
+      }
       derivative = RationalBezierSpline(
-          // u' * w - w' * u
-          ((derivative.GetNumeratorSpline().DerivativeWRTParametricDimension(
-                order_) *
-            derivative.GetWeightFunctionSpline()) -
-           (derivative.GetWeightFunctionSpline()
-                .DerivativeWRTParametricDimension(order_) *
-            derivative.GetNumeratorSpline()))
-              .OrderElevateAlongParametricDimension(i_para_dim),
+          numerator,
           // v^2
           derivative.GetWeightFunctionSpline() *
               derivative.GetWeightFunctionSpline());
-- 
2.43.0


From dcb0278b7642704f377d27b104ebd7b7ddf2e17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:14 +0000
Subject: [PATCH 05/31] fix: fit splines with a flat coordinate into the unit
 cube

Coordinates without extent were scaled by infinity and became NaN.
---
 src/bezier_spline.inc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 8296d53..05a03fe 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -849,12 +849,19 @@ BezierSpline<parametric_dimension, PhysicalPointType,
   const auto maximum_corner = MaximumCorner();
   const auto minimum_corner = MinimumCorner();
   auto scale_vector = maximum_corner - minimum_corner;
+  // Coordinates without any extent can not be stretched, only transposed
+  const auto inverse_extent = [](const ScalarType& extent) -> ScalarType {
+    if (extent == static_cast<ScalarType>(0)) {
+      return static_cast<ScalarType>(1);
+    }
+    return static_cast<ScalarType>(1) / extent;
+  };
   if constexpr (std::is_scalar_v<PhysicalPointType>) {
-    scale_vector = static_cast<ScalarType>(1) / scale_vector;
+    scale_vector = inverse_extent(scale_vector);
   } else {
     for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
          i_dim++) {
-      scale_vector[i_dim] = static_cast<ScalarType>(1) / scale_vector[i_dim];
+      scale_vector[i_dim] = inverse_extent(scale_vector[i_dim]);
     }
   }
   return TransposeAndScale(-minimum_corner, scale_vector);
-- 
2.43.0


From fd33929d42915ea60b40ab582a34e549c60c86c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:14 +0000
Subject: [PATCH 06/31] fix: reject inner functions outside the unit cube in
 rational-rational compositions

All other compositions already did.
---
 src/rational_bezier_spline.hpp | 6 ++++++
 src/rational_bezier_spline.inc | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/src/rational_bezier_spline.hpp b/src/rational_bezier_spline.hpp
index 8689289..c959026 100644
--- a/src/rational_bezier_spline.hpp
+++ b/src/rational_bezier_spline.hpp
@@ -511,6 +511,12 @@ class RationalBezierSpline {
   Compose(const RationalBezierSpline<parametric_dimension_inner_spline,
                                      PointTypeRHS, ScalarRHS>& inner_function)
       const {
+    // Check if the inner function fits into the unit cube
+    if (!inner_function.FitsIntoUnitCube()) {
+      utils::Logger::TerminatingError(
+          "Inner function must fit unit cube to "
+          "perform composition");
+    }
     return RationalBezierSpline<parametric_dimension_inner_spline,
                                 PhysicalPointType,
                                 decltype(ScalarType_{} * ScalarRHS{})>{
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 40c4eca..ca7ff14 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -790,6 +790,13 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
                            decltype(ScalarType_{} * ScalarRHS{}),
                            decltype(ScalarType_{} * ScalarRHS{})>;
 
+  // Check if the inner function fits into the unit cube
+  if (!inner_function.FitsIntoUnitCube()) {
+    utils::Logger::TerminatingError(
+        "Inner function must fit unit cube to "
+        "perform composition");
+  }
+
   // Precompute numerators
   const auto &numerator_derivatives =
       weighted_spline_.ComposeNumeratorSensitivity(inner_function);
-- 
2.43.0


From 89ba295e13188f067efd4cba73e49cf12ff685a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:14 +0000
Subject: [PATCH 07/31] fix: make the composition with a group of splines
 compile

It called FitsIntoUnitCube on the std::vector. The composition of the
individual splines performs this check already.
---
 src/bezier_spline.inc | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 05a03fe..48c0625 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -1078,18 +1078,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::Compose(
   ReturnType composition_group;
   composition_group.reserve(number_of_splines);
 
-  // Check if the inner function fits into the unit cube
-  if (!inner_function_group.FitsIntoUnitCube()) {
-    utils::Logger::TerminatingError(
-        "Inner function must fit unit cube to "
-        "perform composition");
-  }
-
-  // Check Dimensions
-  static_assert(
-      SplineType::PhysicalPointType_::kSpatialDimension == parametric_dimension,
-      "Dimension mismatch");
-
+  // Unit cube and dimensions are checked elementwise
   for (IndexingType i_spline{}; i_spline < number_of_splines; i_spline++) {
     composition_group.push_back(Compose(inner_function_group[i_spline]));
   }
-- 
2.43.0


From b403900adabca641d103fb49f81f0b20705de127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 08/31] fix: do not read past the end of the data in
 Base64::Encode

The padding of incomplete groups was taken from the memory behind the vector
(or aborted, if the vector is empty).
---
 src/utils/base64.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/base64.hpp b/src/utils/base64.hpp
index 1ba3576..5356380 100644
--- a/src/utils/base64.hpp
+++ b/src/utils/base64.hpp
@@ -88,7 +88,7 @@ class Base64_ {
       std::enable_if_t<!type_traits::isPoint_v<BaseType>, void*> = nullptr>
   static std::string Encode(const std::vector<BaseType>& data_vector) {
     const ByteRepresentation* vector_as_bytes =
-        reinterpret_cast<const ByteRepresentation*>(&data_vector[0]);
+        reinterpret_cast<const ByteRepresentation*>(data_vector.data());
 
     // Number of bytes for an entry
     constexpr const std::size_t length_of_entry{sizeof(BaseType{})};
@@ -113,10 +113,10 @@ class Base64_ {
       buffer[0] = buffer_index < minimum_n_bytes_required
                       ? vector_as_bytes[buffer_index + 0]
                       : 0;
-      buffer[1] = buffer_index < minimum_n_bytes_required
+      buffer[1] = buffer_index + 1 < minimum_n_bytes_required
                       ? vector_as_bytes[buffer_index + 1]
                       : 0;
-      buffer[2] = buffer_index < minimum_n_bytes_required
+      buffer[2] = buffer_index + 2 < minimum_n_bytes_required
                       ? vector_as_bytes[buffer_index + 2]
                       : 0;
 
-- 
2.43.0


From a99a500c84e3ed0b613bc9f2d5a7bd689df23716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 09/31] fix: do not decode Base64 padding into additional
 entries

Types smaller than three bytes got surplus entries, empty strings aborted.
---
 src/utils/base64.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/utils/base64.hpp b/src/utils/base64.hpp
index 5356380..47a9be2 100644
--- a/src/utils/base64.hpp
+++ b/src/utils/base64.hpp
@@ -204,14 +204,21 @@ class Base64_ {
     // Init return value
     const std::size_t number_of_groups{base64string.size() / 4};
     constexpr const std::size_t length_of_entry{sizeof(OutputType{})};
-    const std::size_t number_of_output_values{(number_of_groups * 3) /
-                                              length_of_entry};
+    // Padded characters do not represent any data
+    std::size_t number_of_padding_bytes{};
+    while (number_of_padding_bytes < base64string.size() &&
+           base64string[base64string.size() - number_of_padding_bytes - 1] ==
+               '=') {
+      number_of_padding_bytes++;
+    }
+    const std::size_t number_of_output_values{
+        (number_of_groups * 3 - number_of_padding_bytes) / length_of_entry};
     std::vector<OutputType> return_value;
     return_value.resize(number_of_output_values);
 
     // Access as byte stream
     ByteRepresentation* vector_as_bytes =
-        reinterpret_cast<ByteRepresentation*>(&return_value[0]);
+        reinterpret_cast<ByteRepresentation*>(return_value.data());
 
     // Start the reverse process
     for (std::size_t i_group{}; i_group < number_of_groups; i_group++) {
-- 
2.43.0


From 6d812761b1b11d13b58870d83708f3a0fbdc0adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 10/31] fix: do not truncate IntPower of wide integral types to
 int

---
 src/utils/algorithms/int_power.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/algorithms/int_power.hpp b/src/utils/algorithms/int_power.hpp
index f3f627f..599794c 100644
--- a/src/utils/algorithms/int_power.hpp
+++ b/src/utils/algorithms/int_power.hpp
@@ -37,7 +37,8 @@ constexpr IntegralType IntPower(const IntegralType& base,
   if (power == 0) return 1;
   if (power == 1) return base;
 
-  int tmp = IntPower(base, power / 2);
+  const IntegralType tmp =
+      IntPower(base, static_cast<IntegralType>(power / 2));
   if ((power % 2) == 0) {
     return tmp * tmp;
   } else {
-- 
2.43.0


From 9ae67a4c4eeb4178d99e15f75c28a6863015ac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 11/31] fix: in-place operations with an operand that refers to
 the own data

E.g. spline -= spline.control_points[0] used the already modified operand for
all remaining control points.
---
 src/bezier_spline.inc          | 12 +++++++++---
 src/point.hpp                  |  4 +++-
 src/rational_bezier_spline.inc |  8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 48c0625..1dd029a 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -515,8 +515,10 @@ template <std::size_t parametric_dimension, typename PhysicalPointType,
 constexpr BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>&
 BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator*=(
     const ScalarType& scalar) {
+  // Copy as the argument might refer to one of the own control points
+  const ScalarType factor{scalar};
   for (std::size_t i{}; i < GetNumberOfControlPoints(); i++) {
-    control_points[i] *= scalar;
+    control_points[i] *= factor;
   }
   return (*this);
 }
@@ -526,8 +528,10 @@ template <std::size_t parametric_dimension, typename PhysicalPointType,
 constexpr BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>&
 BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator+=(
     const PhysicalPointType& point_shift) {
+  // Copy as the argument might refer to one of the own control points
+  const PhysicalPointType shift{point_shift};
   for (std::size_t i{}; i < GetNumberOfControlPoints(); i++) {
-    control_points[i] += point_shift;
+    control_points[i] += shift;
   }
   return (*this);
 }
@@ -547,8 +551,10 @@ template <std::size_t parametric_dimension, typename PhysicalPointType,
 constexpr BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>&
 BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator-=(
     const PhysicalPointType& point_shift) {
+  // Copy as the argument might refer to one of the own control points
+  const PhysicalPointType shift{point_shift};
   for (std::size_t i{}; i < GetNumberOfControlPoints(); i++) {
-    control_points[i] -= point_shift;
+    control_points[i] -= shift;
   }
   return (*this);
 }
diff --git a/src/point.hpp b/src/point.hpp
index 8a2f8e4..50444d7 100644
--- a/src/point.hpp
+++ b/src/point.hpp
@@ -107,7 +107,9 @@ class Point : public std::array<BaseType, spatial_dimension> {
 
   /// Multiplication with a scalar
   constexpr Point& operator*=(const BaseType& scale) {
-    for (unsigned int i = 0; i < spatial_dimension; ++i) (*this)[i] *= scale;
+    // Copy as the argument might refer to one of the own coordinates
+    const BaseType factor{scale};
+    for (unsigned int i = 0; i < spatial_dimension; ++i) (*this)[i] *= factor;
     return (*this);
   }
 
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index ca7ff14..660d064 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -580,10 +580,12 @@ constexpr RationalBezierSpline<parametric_dimension, PhysicalPointType,
     &RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     operator+=(const PhysicalPointType &point_shift) {
   // Add up contributions to control points with weights
+  // (copy the shift as it might refer to one of the own control points)
+  const PhysicalPointType shift{point_shift};
   for (IndexingType i_ctps{};
        i_ctps < weighted_spline_.GetNumberOfControlPoints(); i_ctps++) {
     weighted_spline_.control_points[i_ctps] +=
-        point_shift * weight_function_.control_points[i_ctps];
+        shift * weight_function_.control_points[i_ctps];
   }
   // Check sanity
   assert(CheckSplineCompatibility());
@@ -609,10 +611,12 @@ constexpr RationalBezierSpline<parametric_dimension, PhysicalPointType,
     &RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     operator-=(const PhysicalPointType &point_shift) {
   // Add up contributions to control points with weights
+  // (copy the shift as it might refer to one of the own control points)
+  const PhysicalPointType shift{point_shift};
   for (IndexingType i_ctps{};
        i_ctps < weighted_spline_.GetNumberOfControlPoints(); i_ctps++) {
     weighted_spline_.control_points[i_ctps] -=
-        point_shift * weight_function_.control_points[i_ctps];
+        shift * weight_function_.control_points[i_ctps];
   }
   return (*this);
 }
-- 
2.43.0


From a930d7924200c046d9ef2bd119060cedf229ba6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:15 +0000
Subject: [PATCH 12/31] fix: keep the recorded messages after a terminating
 error

The files were closed, and the next use of the logger truncated them.
---
 src/utils/logger.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utils/logger.hpp b/src/utils/logger.hpp
index a74c5a9..db9142b 100644
--- a/src/utils/logger.hpp
+++ b/src/utils/logger.hpp
@@ -310,8 +310,11 @@ class Logger {
                  << "]" << GetTimeStamp_() << " : " << error_text << "\n";
     }
 #endif
-    // Close file streams in order to save error files
-    close();
+    // Flush file streams in order to save error files (if they were closed, the
+    // next message would reopen the files and discard their content)
+    log_file.flush();
+    warning_file.flush();
+    error_file.flush();
     // Throw exception
     throw ExceptionType(error_text);
   }
-- 
2.43.0


From e8ef01106dd99274d1681037fa6dcd800d138b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:29 +0000
Subject: [PATCH 13/31] fix: TransposeAndScale with arguments that refer to the
 own control points

---
 src/bezier_spline.inc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 1dd029a..7d15153 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -832,15 +832,16 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
                       const PhysicalPointType& scale_vector) {
   utils::Logger::ExtendedInformation(
       "Starting scaling and transposing spline to move bounds");
+  // Copy as the arguments might refer to the own control points
+  const PhysicalPointType shift{transposition}, stretch{scale_vector};
   for (IndexingType i{}; i < GetNumberOfControlPoints(); i++) {
     if constexpr (std::is_scalar_v<PhysicalPointType>) {
-      control_points[i] = (transposition + control_points[i]) * scale_vector;
+      control_points[i] = (shift + control_points[i]) * stretch;
     } else {
       for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
            i_dim++) {
         control_points[i][i_dim] =
-            (transposition[i_dim] + control_points[i][i_dim]) *
-            scale_vector[i_dim];
+            (shift[i_dim] + control_points[i][i_dim]) * stretch[i_dim];
       }
     }
   }
-- 
2.43.0


From 9528ebd7a1424020db6f51bc79a1222ce1a104f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:18 +0000
Subject: [PATCH 14/31] fix: second derivatives of acos, asin and the division
 by scalars

None of them compiled for nested AlgoDiffTypes (and acos used the value of
the cosine).
---
 .../computational_differentiation/algo_diff_type.inc      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/computational_differentiation/algo_diff_type.inc b/src/utils/computational_differentiation/algo_diff_type.inc
index 9eb3385..ce64aa4 100644
--- a/src/utils/computational_differentiation/algo_diff_type.inc
+++ b/src/utils/computational_differentiation/algo_diff_type.inc
@@ -185,7 +185,7 @@ AlgoDiffType<Scalar, numberOfDerivatives>::operator/(const Scalar& b) const {
 template <typename Scalar, std::size_t numberOfDerivatives>
 constexpr AlgoDiffType<Scalar, numberOfDerivatives>&
 AlgoDiffType<Scalar, numberOfDerivatives>::operator/=(const Scalar& b) {
-  const Scalar inverse_b{1 / b};
+  const Scalar inverse_b = 1.0 / b;
   v_ *= inverse_b;
   for (IndexingType_ i{}; i < GetNumberOfDerivatives(); i++) {
     d_[i] *= inverse_b;
@@ -410,8 +410,8 @@ constexpr AlgoDiffType<Scalar, numberOfDerivatives> acos(
     auxiliary_value = -1. / std::sqrt(1 - rad.v_ * rad.v_);
     result_value.v_ = std::acos(rad.v_);
   } else {
-    auxiliary_value = -1. / sqrt(1 - rad.v_ * rad.v_);
-    result_value.v_ = cos(rad.v_);
+    auxiliary_value = -1. / sqrt(1. - rad.v_ * rad.v_);
+    result_value.v_ = acos(rad.v_);
   }
   for (std::size_t i{}; i < rad.GetNumberOfDerivatives(); i++) {
     result_value.d_[i] *= auxiliary_value;
@@ -429,7 +429,7 @@ constexpr AlgoDiffType<Scalar, numberOfDerivatives> asin(
     auxiliary_value = 1. / std::sqrt(1 - rad.v_ * rad.v_);
     result_value.v_ = std::asin(rad.v_);
   } else {
-    auxiliary_value = 1. / std::sqrt(1 - rad.v_ * rad.v_);
+    auxiliary_value = 1. / sqrt(1. - rad.v_ * rad.v_);
     result_value.v_ = asin(rad.v_);
   }
   for (std::size_t i{}; i < rad.GetNumberOfDerivatives(); i++) {
-- 
2.43.0


From c3569aaf9fae8fdc91255858f695e7709664bf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:18 +0000
Subject: [PATCH 15/31] fix: powers of an AlgoDiffType with value zero

The value was computed as 0 * 0^(power - 1), which is NaN for powers below one.
---
 .../computational_differentiation/algo_diff_type.inc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/utils/computational_differentiation/algo_diff_type.inc b/src/utils/computational_differentiation/algo_diff_type.inc
index ce64aa4..1a9d048 100644
--- a/src/utils/computational_differentiation/algo_diff_type.inc
+++ b/src/utils/computational_differentiation/algo_diff_type.inc
@@ -261,17 +261,19 @@ template <typename Scalar, std::size_t numberOfDerivatives>
 constexpr AlgoDiffType<Scalar, numberOfDerivatives> pow(
     const AlgoDiffType<Scalar, numberOfDerivatives>& base,
     const Scalar& power) {
+  AlgoDiffType<Scalar, numberOfDerivatives> result_value{base};
   Scalar tmp;
   if constexpr (std::is_arithmetic_v<Scalar>) {
     // Use STD namespace function
-    tmp = std::pow(base.v_, power - 1.0);
+    result_value.v_ = std::pow(base.v_, power);
+    // x^0 is constant, even where x^(-1) is singular
+    tmp = power == 0 ? power : power * std::pow(base.v_, power - 1.0);
   } else {
-    tmp = pow(base.v_, power - 1.0);
+    result_value.v_ = pow(base.v_, power);
+    tmp = power * pow(base.v_, power - 1.0);
   }
-  AlgoDiffType<Scalar, numberOfDerivatives> result_value{base};
-  result_value.v_ *= tmp;
   for (std::size_t i{}; i < base.GetNumberOfDerivatives(); i++) {
-    result_value.d_[i] *= power * tmp;
+    result_value.d_[i] *= tmp;
   }
   return result_value;
 }
-- 
2.43.0


From cb63ab0a20ad15e7abc89b6f4aafeffeed0c9ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:59 +0000
Subject: [PATCH 16/31] fix: make spline operations compile for AlgoDiffType
 scalars

Evaluating, elevating, deriving, splitting and composing splines with
AD-type control points failed to compile, as only double was considered.
---
 src/bezier_spline.inc                         | 14 ++++++++++----
 src/point.hpp                                 |  2 +-
 src/rational_bezier_spline.inc                |  2 +-
 src/utils/algorithms/bernstein_polynomial.hpp |  3 ++-
 4 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 7d15153..df1b84a 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -202,7 +202,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
         control_points[global_index] =
             control_points[first_index_in_group + index_in_group +
                            index_offsets[par_dim] * i] *
-                (1 - factor) +
+                (static_cast<ScalarType_>(1) - factor) +
             control_points[first_index_in_group + index_in_group +
                            index_offsets[par_dim] * (i - 1)] *
                 factor;
@@ -1344,10 +1344,16 @@ BezierSpline<parametric_dimension, PhysicalPointType,
              ScalarType>::SplitAtPosition(const ScalarType& splitting_plane,
                                           const IndexingType
                                               splitting_dimension) const {
+  // std::to_string is limited to intrinsic types
+  const std::string splitting_plane_as_string = [&splitting_plane]() {
+    std::ostringstream out{};
+    out << splitting_plane;
+    return out.str();
+  }();
   utils::Logger::ExtendedInformation(
       "Splitting spline along parametric dimension " +
       std::to_string(splitting_dimension) + " at position " +
-      std::to_string(splitting_plane));
+      splitting_plane_as_string);
   /*
    * Notation:
    * A group the number of all starting points that are subsequent, i.e. the
@@ -1375,7 +1381,7 @@ BezierSpline<parametric_dimension, PhysicalPointType,
   // Check bounds (as default knot-vector is [0,0,..,1,1,...])
   if (!(splitting_plane > 0. && splitting_plane < 1.)) {
     utils::Logger::TerminatingError("Split Plane is at " +
-                                    std::to_string(splitting_plane) +
+                                    splitting_plane_as_string +
                                     ", which is out of bounds (0,1)");
   }
 
@@ -1460,7 +1466,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
   return_value.push_back(split_spline[0]);
   for (std::size_t i_split{1}; i_split < splitting_planes.size(); i_split++) {
     // Calculate the position of the split position in the remaining spline
-    const double split_in_remaining_part =
+    const ScalarType split_in_remaining_part =
         (splitting_planes[i_split] - splitting_planes[i_split - 1]) /
         (1. - splitting_planes[i_split - 1]);
     // Split remainder
diff --git a/src/point.hpp b/src/point.hpp
index 50444d7..889139b 100644
--- a/src/point.hpp
+++ b/src/point.hpp
@@ -121,7 +121,7 @@ class Point : public std::array<BaseType, spatial_dimension> {
   }
 
   /// Friend injection for reversed arguments (facilitates readability)
-  friend constexpr Point operator*(const double& scale, const Point& point) {
+  friend constexpr Point operator*(const BaseType& scale, const Point& point) {
     return point * scale;
   }
 
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 660d064..bec925d 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -492,7 +492,7 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
   return_value.push_back(split_spline[0]);
   for (std::size_t i_split{1}; i_split < splitting_planes.size(); i_split++) {
     // Calculate the position of the split position in the remaining spline
-    const double split_in_remaining_part =
+    const ScalarType split_in_remaining_part =
         (splitting_planes[i_split] - splitting_planes[i_split - 1]) /
         (1. - splitting_planes[i_split - 1]);
     // Split remainder
diff --git a/src/utils/algorithms/bernstein_polynomial.hpp b/src/utils/algorithms/bernstein_polynomial.hpp
index 05fb16c..8bfb584 100644
--- a/src/utils/algorithms/bernstein_polynomial.hpp
+++ b/src/utils/algorithms/bernstein_polynomial.hpp
@@ -124,7 +124,8 @@ class BernsteinPolynomial {
         for (std::size_t k{k_min}; k <= std::min(i_basis, deriv); k++) {
           // Check if is even using binary operation
           const ScalarType eval_v =
-              utils::FastBinomialCoefficient::choose(deriv, k) *
+              static_cast<ScalarType>(
+                  utils::FastBinomialCoefficient::choose(deriv, k)) *
               basis[i_basis - k];
           evaluations[i_basis] += ((k + deriv) & 1) ? -eval_v : eval_v;
         }
-- 
2.43.0


From 4c79353651752937e6803a1ba8cd56e394647884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:59 +0000
Subject: [PATCH 17/31] fix: raise scalar splines of any scalar type to a power

AD-type scalar splines were rejected at run time, and with them polynomial
compositions with rational inner functions.
---
 src/bezier_spline.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index df1b84a..da288fa 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -749,7 +749,7 @@ constexpr BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>
 BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::RaisePower(
     const IndexingType power) const {
   // Implements Recursive function of integer powers (can be storage intense)
-  if constexpr (std::is_scalar_v<PhysicalPointType>) {
+  if constexpr (std::is_same_v<PhysicalPointType, ScalarType>) {
     if (power == 0) {
       utils::Logger::Error("Raising to 0 is inefficient. Please revisit");
       return BezierSpline<parametric_dimension, ScalarType_, ScalarType_>{
-- 
2.43.0


From dbd9b1110a0506f24404bde9821668ef48c3a6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:21 +0000
Subject: [PATCH 18/31] fix: split planes next to the end of the parameter
 range

The relative position of the next plane in the remaining part could be rounded
to 1, so that valid lists of planes were rejected.
---
 src/bezier_spline.inc          | 25 ++++++++++++++-----------
 src/rational_bezier_spline.inc | 25 ++++++++++++++-----------
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index da288fa..d7406fb 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -1460,21 +1460,24 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     return return_value;
   }
 
-  // Loop over all split planes and assign the first part to the vector,
-  // then split the remaining part at the relative required position
-  auto split_spline = SplitAtPosition(splitting_planes[0], splitting_dimension);
-  return_value.push_back(split_spline[0]);
-  for (std::size_t i_split{1}; i_split < splitting_planes.size(); i_split++) {
+  // Loop over all split planes (in reversed order) and assign the second part to
+  // the vector, then split the remaining part at the relative required position,
+  // which is the quotient of two planes and thus never rounded to 0 or 1
+  auto split_spline =
+      SplitAtPosition(splitting_planes.back(), splitting_dimension);
+  return_value.push_back(split_spline[1]);
+  for (std::size_t i_split{splitting_planes.size() - 1}; i_split > 0;
+       i_split--) {
     // Calculate the position of the split position in the remaining spline
     const ScalarType split_in_remaining_part =
-        (splitting_planes[i_split] - splitting_planes[i_split - 1]) /
-        (1. - splitting_planes[i_split - 1]);
+        splitting_planes[i_split - 1] / splitting_planes[i_split];
     // Split remainder
-    split_spline = split_spline[1].SplitAtPosition(split_in_remaining_part,
+    split_spline = split_spline[0].SplitAtPosition(split_in_remaining_part,
                                                    splitting_dimension);
-    return_value.push_back(split_spline[0]);
+    return_value.push_back(split_spline[1]);
   }
-  // Assign last section to last element
-  return_value.push_back(split_spline[1]);
+  // Assign first section to last element and restore the order
+  return_value.push_back(split_spline[0]);
+  std::reverse(return_value.begin(), return_value.end());
   return return_value;
 }
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index bec925d..5b910f2 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -486,22 +486,25 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     return return_value;
   }
 
-  // Loop over all split planes and assign the first part to the vector,
-  // then split the remaining part at the relative required position
-  auto split_spline = SplitAtPosition(splitting_planes[0], splitting_dimension);
-  return_value.push_back(split_spline[0]);
-  for (std::size_t i_split{1}; i_split < splitting_planes.size(); i_split++) {
+  // Loop over all split planes (in reversed order) and assign the second part to
+  // the vector, then split the remaining part at the relative required position,
+  // which is the quotient of two planes and thus never rounded to 0 or 1
+  auto split_spline =
+      SplitAtPosition(splitting_planes.back(), splitting_dimension);
+  return_value.push_back(split_spline[1]);
+  for (std::size_t i_split{splitting_planes.size() - 1}; i_split > 0;
+       i_split--) {
     // Calculate the position of the split position in the remaining spline
     const ScalarType split_in_remaining_part =
-        (splitting_planes[i_split] - splitting_planes[i_split - 1]) /
-        (1. - splitting_planes[i_split - 1]);
+        splitting_planes[i_split - 1] / splitting_planes[i_split];
     // Split remainder
-    split_spline = split_spline[1].SplitAtPosition(split_in_remaining_part,
+    split_spline = split_spline[0].SplitAtPosition(split_in_remaining_part,
                                                    splitting_dimension);
-    return_value.push_back(split_spline[0]);
+    return_value.push_back(split_spline[1]);
   }
-  // Assign last section to last element
-  return_value.push_back(split_spline[1]);
+  // Assign first section to last element and restore the order
+  return_value.push_back(split_spline[0]);
+  std::reverse(return_value.begin(), return_value.end());
   return return_value;
 }
 
-- 
2.43.0


From 2b5bd80be8afadc7cd50b1b91005fa6790eaee8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 19/31] fix: subtract every control point if the left hand side
 has a lower degree

---
 src/bezier_spline.inc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index d7406fb..cd76863 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -686,7 +686,8 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator-(
     }
   }
   // Add control points
-  for (IndexingType i_ctps{}; i_ctps < GetNumberOfControlPoints(); i_ctps++) {
+  for (IndexingType i_ctps{};
+       i_ctps < return_spline.GetNumberOfControlPoints(); i_ctps++) {
     return_spline.control_points[i_ctps] -= rhs.control_points[i_ctps];
   }
   return return_spline;
-- 
2.43.0


From 18d32c27802c3a3d9b048d9b6905b9f5f7d60edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:41 +0000
Subject: [PATCH 20/31] fix: evaluate derivatives of rational splines of
 AlgoDiffType scalars

The product of the integral binomial factor and the scalar did not compile
for anything but arithmetic types.
---
 src/rational_bezier_spline.inc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 5b910f2..dff20a5 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -312,7 +312,8 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
       }
       // Substract low-order function
       derivatives[i_deriv] -=
-          binom_fact * w_derivatives[j_deriv] * derivatives[i_deriv - j_deriv];
+          static_cast<ScalarType>(binom_fact) * w_derivatives[j_deriv] *
+          derivatives[i_deriv - j_deriv];
     }
     // Finalize
     derivatives[i_deriv] *= inv_w_fact;
@@ -421,7 +422,7 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
       // Substract low-order function
       for (std::size_t i_basis{}; i_basis < n_basis_functions; i_basis++) {
         derivatives[i_deriv][i_basis] -=
-            binom_fact * w_derivatives[j_deriv] *
+            static_cast<ScalarType>(binom_fact) * w_derivatives[j_deriv] *
             derivatives[i_deriv - j_deriv][i_basis];
       }
     }
-- 
2.43.0


From cc24b62dd2b3fab72665ee58becabbc7d3b53ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:06 +0000
Subject: [PATCH 21/31] fix: respect derivatives when weight functions are
 compared

Adding or subtracting rational splines of AlgoDiffTypes whose weights have the
same values lost the derivatives with respect to the weights of the second one.
---
 src/rational_bezier_spline.hpp | 34 ++++++++++++++++++++++++++++++++++
 src/rational_bezier_spline.inc |  8 ++++----
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/rational_bezier_spline.hpp b/src/rational_bezier_spline.hpp
index c959026..030fb69 100644
--- a/src/rational_bezier_spline.hpp
+++ b/src/rational_bezier_spline.hpp
@@ -80,6 +80,40 @@ class RationalBezierSpline {
     return compatible;
   }
 
+  /**
+   * @brief Check if two weights are the same (comparing AlgoDiffTypes only
+   * respects their values, but here the derivatives must agree as well)
+   */
+  template <typename WeightType>
+  static constexpr bool IsSameWeight_(const WeightType& lhs,
+                                      const WeightType& rhs) {
+    if constexpr (std::is_arithmetic_v<WeightType>) {
+      return lhs == rhs;
+    } else {
+      const auto lhs_derivatives = lhs.GetDerivatives();
+      const auto rhs_derivatives = rhs.GetDerivatives();
+      return IsSameWeight_(lhs.GetValue(), rhs.GetValue()) &&
+             std::equal(lhs_derivatives.begin(), lhs_derivatives.end(),
+                        rhs_derivatives.begin(), rhs_derivatives.end(),
+                        [](const auto& lhs_i, const auto& rhs_i) {
+                          return IsSameWeight_(lhs_i, rhs_i);
+                        });
+    }
+  }
+
+  /// Check if two rational splines share the same weight function
+  template <typename PointTypeRHS, typename ScalarRHS>
+  constexpr bool HasSameWeightFunction_(
+      const RationalBezierSpline<parametric_dimension, PointTypeRHS, ScalarRHS>&
+          rhs) const {
+    return (weight_function_ == rhs.weight_function_) &&
+           std::equal(GetWeights().begin(), GetWeights().end(),
+                      rhs.GetWeights().begin(), rhs.GetWeights().end(),
+                      [](const auto& lhs_i, const auto& rhs_i) {
+                        return IsSameWeight_(lhs_i, rhs_i);
+                      });
+  }
+
   // Friend declarations
   template <std::size_t parent_parametric_dimension,
             typename ParentPhysicalPointType, typename ParentScalarType>
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index dff20a5..39e983f 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -655,7 +655,7 @@ constexpr auto
 RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
 operator+(const RationalBezierSpline<parametric_dimension, PointTypeRHS,
                                      ScalarRHS> &rhs) const {
-  if (weight_function_ == rhs.weight_function_) {
+  if (HasSameWeightFunction_(rhs)) {
     return RationalBezierSpline{weighted_spline_ + rhs.weighted_spline_,
                                 weight_function_};
   } else {
@@ -672,7 +672,7 @@ constexpr RationalBezierSpline<parametric_dimension, PhysicalPointType,
     &RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     operator+=(const RationalBezierSpline<parametric_dimension,
                                           PhysicalPointType, ScalarType> &rhs) {
-  if (weight_function_ == rhs.weight_function_) {
+  if (HasSameWeightFunction_(rhs)) {
     weighted_spline_ += rhs.weighted_spline_;
     return (*this);
   } else {
@@ -692,7 +692,7 @@ constexpr auto
 RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
 operator-(const RationalBezierSpline<parametric_dimension, PointTypeRHS,
                                      ScalarRHS> &rhs) const {
-  if (weight_function_ == rhs.weight_function_) {
+  if (HasSameWeightFunction_(rhs)) {
     return RationalBezierSpline{weighted_spline_ - rhs.weighted_spline_,
                                 weight_function_};
   } else {
@@ -709,7 +709,7 @@ constexpr RationalBezierSpline<parametric_dimension, PhysicalPointType,
     &RationalBezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
     operator-=(const RationalBezierSpline<parametric_dimension,
                                           PhysicalPointType, ScalarType> &rhs) {
-  if (weight_function_ == rhs.weight_function_) {
+  if (HasSameWeightFunction_(rhs)) {
     weighted_spline_ -= rhs.weighted_spline_;
     return (*this);
   } else {
-- 
2.43.0


From d51306ce6460362fce55aaa09df8b7e865550eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 22/31] fix: let SplitAtPosition compile with clang again

A local std::string is not allowed in a constexpr function by clang.
---
 src/bezier_spline.inc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index cd76863..4620f1d 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -1346,15 +1346,15 @@ BezierSpline<parametric_dimension, PhysicalPointType,
                                           const IndexingType
                                               splitting_dimension) const {
   // std::to_string is limited to intrinsic types
-  const std::string splitting_plane_as_string = [&splitting_plane]() {
+  const auto splitting_plane_as_string = [&splitting_plane]() {
     std::ostringstream out{};
     out << splitting_plane;
     return out.str();
-  }();
+  };
   utils::Logger::ExtendedInformation(
       "Splitting spline along parametric dimension " +
       std::to_string(splitting_dimension) + " at position " +
-      splitting_plane_as_string);
+      splitting_plane_as_string());
   /*
    * Notation:
    * A group the number of all starting points that are subsequent, i.e. the
@@ -1382,7 +1382,7 @@ BezierSpline<parametric_dimension, PhysicalPointType,
   // Check bounds (as default knot-vector is [0,0,..,1,1,...])
   if (!(splitting_plane > 0. && splitting_plane < 1.)) {
     utils::Logger::TerminatingError("Split Plane is at " +
-                                    splitting_plane_as_string +
+                                    splitting_plane_as_string() +
                                     ", which is out of bounds (0,1)");
   }
 
-- 
2.43.0


From 0fe45546f3bc1c129e7ffd31d037bdf4fc79c983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:52 +0000
Subject: [PATCH 23/31] fix: let atan of a single precision AlgoDiffType
 compile with clang

---
 src/utils/computational_differentiation/algo_diff_type.inc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/computational_differentiation/algo_diff_type.inc b/src/utils/computational_differentiation/algo_diff_type.inc
index 1a9d048..8396e25 100644
--- a/src/utils/computational_differentiation/algo_diff_type.inc
+++ b/src/utils/computational_differentiation/algo_diff_type.inc
@@ -444,7 +444,8 @@ template <typename Scalar, std::size_t numberOfDerivatives>
 constexpr AlgoDiffType<Scalar, numberOfDerivatives> atan(
     const AlgoDiffType<Scalar, numberOfDerivatives>& rad) {
   AlgoDiffType<Scalar, numberOfDerivatives> result_value{rad};
-  const Scalar auxiliary_value{1. / (1. + rad.v_ * rad.v_)};
+  const Scalar auxiliary_value =
+      static_cast<Scalar>(1. / (1. + rad.v_ * rad.v_));
   if constexpr (std::is_arithmetic_v<Scalar>) {
     // Use STD namespace function
     result_value.v_ = std::atan(rad.v_);
-- 
2.43.0


From 33f33c568121d7fe607222f9f400ea89ba7b6678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 24/31] fix: discard bytes that do not complete an entry when
 decoding Base64

---
 src/utils/base64.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/utils/base64.hpp b/src/utils/base64.hpp
index 47a9be2..ff17f64 100644
--- a/src/utils/base64.hpp
+++ b/src/utils/base64.hpp
@@ -213,6 +213,8 @@ class Base64_ {
     }
     const std::size_t number_of_output_values{
         (number_of_groups * 3 - number_of_padding_bytes) / length_of_entry};
+    const std::size_t number_of_output_bytes{number_of_output_values *
+                                             length_of_entry};
     std::vector<OutputType> return_value;
     return_value.resize(number_of_output_values);
 
@@ -231,16 +233,16 @@ class Base64_ {
                         : 255;
       }
 
-      // Write bytes
-      if (buffer[1] != 255) {
+      // Write bytes (those that do not complete an entry are discarded)
+      if (buffer[1] != 255 && i_group * 3 < number_of_output_bytes) {
         vector_as_bytes[i_group * 3] =
             ((buffer[0] & 0x3f) << 2) + ((buffer[1] & 0x30) >> 4);
       }
-      if (buffer[2] != 255) {
+      if (buffer[2] != 255 && i_group * 3 + 1 < number_of_output_bytes) {
         vector_as_bytes[i_group * 3 + 1] =
             ((buffer[1] & 0x0f) << 4) + ((buffer[2] & 0x3c) >> 2);
       }
-      if (buffer[3] != 255) {
+      if (buffer[3] != 255 && i_group * 3 + 2 < number_of_output_bytes) {
         vector_as_bytes[i_group * 3 + 2] =
             ((buffer[2] & 0x03) << 6) + ((buffer[3] & 0x3f) >> 0);
       }
-- 
2.43.0


From 2998c450c0b2ee277f0524d489e1888ee588ba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:13 +0000
Subject: [PATCH 25/31] fix: let several threads raise errors and messages at
 the same time

---
 src/utils/logger.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/utils/logger.hpp b/src/utils/logger.hpp
index db9142b..ce00cec 100644
--- a/src/utils/logger.hpp
+++ b/src/utils/logger.hpp
@@ -29,6 +29,7 @@ SOFTWARE.
 #include <fstream>
 #include <iomanip>
 #include <iostream>
+#include <mutex>
 #include <stdexcept>
 #include <string>
 
@@ -154,6 +155,7 @@ class Logger {
    */
   static Logger& Get() {
     static Logger singleton_instance;
+    const std::lock_guard<std::mutex> lock{singleton_instance.mutex_};
     singleton_instance.init();
     return singleton_instance;
   }
@@ -166,6 +168,7 @@ class Logger {
    * of all chosen enum objects, see OutputLevel
    */
   void SetOutputLevel_(unsigned int outputlevel) {
+    const std::lock_guard<std::mutex> lock{mutex_};
     outputlevel_ = outputlevel;
     init();
   }
@@ -180,6 +183,7 @@ class Logger {
    */
   void SetOutputLevel_(
       const std::initializer_list<OutputLevel>& output_options) {
+    const std::lock_guard<std::mutex> lock{mutex_};
     outputlevel_ = 0;
     for (auto i_option = output_options.begin();
          i_option != output_options.end(); ++i_option) {
@@ -196,6 +200,7 @@ class Logger {
    */
   void Warning_([[maybe_unused]] const std::string& warning_text) {
 #ifdef ENABLE_LOGGING
+    const std::lock_guard<std::mutex> lock{mutex_};
     if (static_cast<unsigned>(OutputLevel::warnings) & outputlevel_) {
       std::cout << "[" << std::setw(padding_first_col_console)
                 << ColorText("warning", Color::yellow) << "]" << GetTimeStamp_()
@@ -216,6 +221,7 @@ class Logger {
    */
   void UserInfo_([[maybe_unused]] const std::string& info_text) {
 #ifdef ENABLE_LOGGING
+    const std::lock_guard<std::mutex> lock{mutex_};
     if (static_cast<unsigned>(OutputLevel::userinfo) & outputlevel_) {
       std::cout << "[" << std::setw(padding_first_col_console)
                 << ColorText("user info", Color::blue) << "]" << GetTimeStamp_()
@@ -236,6 +242,7 @@ class Logger {
    */
   void Logging_([[maybe_unused]] const std::string& log_text) {
 #ifdef ENABLE_LOGGING
+    const std::lock_guard<std::mutex> lock{mutex_};
     if (static_cast<unsigned>(OutputLevel::logging) & outputlevel_) {
       std::cout << "[" << std::setw(padding_first_col_console)
                 << ColorText("log", Color::shell_default) << "]"
@@ -258,6 +265,7 @@ class Logger {
    */
   void ExtendedInformation_([[maybe_unused]] const std::string& log_text) {
 #ifdef ENABLE_LOGGING
+    const std::lock_guard<std::mutex> lock{mutex_};
     if (static_cast<unsigned>(OutputLevel::logging_verbose) & outputlevel_) {
       std::cout << "[" << std::setw(padding_first_col_console)
                 << ColorText("log", Color::green) << "]" << GetTimeStamp_()
@@ -278,6 +286,7 @@ class Logger {
    */
   void Error_([[maybe_unused]] const std::string& error_text) {
 #ifdef ENABLE_LOGGING
+    const std::lock_guard<std::mutex> lock{mutex_};
     if (static_cast<unsigned>(OutputLevel::errors) & outputlevel_) {
       std::cout << "[" << std::setw(padding_first_col_console)
                 << ColorText("error", Color::red) << "]" << GetTimeStamp_()
@@ -298,6 +307,7 @@ class Logger {
    */
   template <typename ExceptionType = std::runtime_error>
   void TerminatingError_(const std::string& error_text) {
+    std::unique_lock<std::mutex> lock{mutex_};
     if (static_cast<unsigned>(OutputLevel::errors) & outputlevel_) {
       std::cout << "[" << std::setw(padding_first_col_console)
                 << ColorText("crit. error", Color::red) << "]"
@@ -315,6 +325,7 @@ class Logger {
     log_file.flush();
     warning_file.flush();
     error_file.flush();
+    lock.unlock();
     // Throw exception
     throw ExceptionType(error_text);
   }
@@ -331,6 +342,9 @@ class Logger {
   /// Padding in text files
   const unsigned int padding_first_col_files{10};
 
+  /// Protects streams, level and time stamps if several threads raise messages
+  std::mutex mutex_{};
+
   /// File Streams
   std::ofstream log_file;
   std::ofstream warning_file;
-- 
2.43.0


From 3f32e3bad08cc20298e18607d240ca5aad43d0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:53 +0000
Subject: [PATCH 26/31] fix: divide differentiation types whatever the square
 of the divisor

The quotient rule divided by the square of the divisor, which is zero or
infinite for large or small divisors (above 1e19 or below 1e-23 in single
precision), so that values and derivatives of quotients became zero,
infinite or undefined.
---
 .../algo_diff_type.inc                        | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/utils/computational_differentiation/algo_diff_type.inc b/src/utils/computational_differentiation/algo_diff_type.inc
index 8396e25..b72f446 100644
--- a/src/utils/computational_differentiation/algo_diff_type.inc
+++ b/src/utils/computational_differentiation/algo_diff_type.inc
@@ -165,12 +165,14 @@ constexpr AlgoDiffType<Scalar, numberOfDerivatives>&
 AlgoDiffType<Scalar, numberOfDerivatives>::operator/=(
     const AlgoDiffType<Scalar, numberOfDerivatives>& b) {
   assert(b.GetNumberOfDerivatives() == GetNumberOfDerivatives());
-  const Scalar_ inverse_b_squared = 1.0 / (b.v_ * b.v_);
+  // The square of the divisor might not be representable
+  const Scalar_ quotient = v_ / b.v_;
   for (IndexingType_ i{}; i < GetNumberOfDerivatives(); i++) {
-    // f'(x) = (u'*v -  u*v') / v^2
-    d_[i] = (b.v_ * d_[i] - b.d_[i] * v_) * inverse_b_squared;
+    // f'(x) = (u' - (u/v)*v') / v
+    d_[i] = (d_[i] - b.d_[i] * quotient) / b.v_;
   }
-  v_ /= b.v_;
+  // Must be at the end otherwise overwrite value
+  v_ = quotient;
   return (*this);
 }
 
@@ -185,10 +187,10 @@ AlgoDiffType<Scalar, numberOfDerivatives>::operator/(const Scalar& b) const {
 template <typename Scalar, std::size_t numberOfDerivatives>
 constexpr AlgoDiffType<Scalar, numberOfDerivatives>&
 AlgoDiffType<Scalar, numberOfDerivatives>::operator/=(const Scalar& b) {
-  const Scalar inverse_b = 1.0 / b;
-  v_ *= inverse_b;
+  // The inverse of the divisor might not be representable
+  v_ /= b;
   for (IndexingType_ i{}; i < GetNumberOfDerivatives(); i++) {
-    d_[i] *= inverse_b;
+    d_[i] /= b;
   }
   return (*this);
 }
@@ -226,10 +228,11 @@ template <typename Scalar, std::size_t numberOfDerivatives>
 constexpr AlgoDiffType<Scalar, numberOfDerivatives> operator/(
     const Scalar& a, const AlgoDiffType<Scalar, numberOfDerivatives>& b) {
   AlgoDiffType<Scalar, numberOfDerivatives> result_value{b};
-  Scalar deriv = -a / (b.v_ * b.v_);
-  result_value.v_ *= -deriv;
+  // The square of the divisor might not be representable
+  const Scalar quotient = a / b.v_;
+  result_value.v_ = quotient;
   for (std::size_t i{}; i < result_value.GetNumberOfDerivatives(); i++) {
-    result_value.d_[i] *= deriv;
+    result_value.d_[i] = -(b.d_[i] * quotient) / b.v_;
   }
 
   return result_value;
-- 
2.43.0


From bd02f754e5748a49e02354296631136dabcde397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:59 +0000
Subject: [PATCH 27/31] fix: divide every coordinate of a point by the divisor
 itself

Multiplying with the inverse made quotients of integer points zero and
those of divisors without a representable inverse infinite or undefined.
---
 src/point.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/point.hpp b/src/point.hpp
index 889139b..093d89c 100644
--- a/src/point.hpp
+++ b/src/point.hpp
@@ -127,8 +127,10 @@ class Point : public std::array<BaseType, spatial_dimension> {
 
   /// Division with a scalar
   constexpr Point& operator/=(const BaseType& scale) {
-    const BaseType inv_scale{static_cast<BaseType>(1.) / scale};
-    (*this) *= inv_scale;
+    // Copy as the argument might refer to one of the own coordinates (its
+    // inverse might not be representable)
+    const BaseType divisor{scale};
+    for (unsigned int i = 0; i < spatial_dimension; ++i) (*this)[i] /= divisor;
     return (*this);
   }
 
-- 
2.43.0


From dc32b2f75a3f20b1c79dde996af083a46de993fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:43 +0000
Subject: [PATCH 28/31] fix: do not narrow the dividend of long double points

---
 src/point.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/point.hpp b/src/point.hpp
index 093d89c..ebf49ea 100644
--- a/src/point.hpp
+++ b/src/point.hpp
@@ -30,6 +30,7 @@ SOFTWARE.
 #include <iomanip>
 #include <iostream>
 #include <sstream>
+#include <type_traits>
 
 namespace bezman {
 
@@ -141,8 +142,12 @@ class Point : public std::array<BaseType, spatial_dimension> {
     return division;
   }
 
-  /// Friend injection for reversed arguments (facilitates readability)
-  friend constexpr Point operator/(const double& scale, const Point& point) {
+  /// Friend injection for reversed arguments (facilitates readability, does not
+  /// narrow the dividend of long double points)
+  friend constexpr Point operator/(
+      const std::conditional_t<std::is_same_v<BaseType, long double>,
+                               long double, double>& scale,
+      const Point& point) {
     Point<spatial_dimension, BaseType> division{};
     for (unsigned int i = 0; i < spatial_dimension; ++i)
       division[i] = scale / point[i];
-- 
2.43.0


From 047ab1a409acbf8adb4519d51f1a3733c948dcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:57 +0000
Subject: [PATCH 29/31] fix: corners, unit cube, extraction and compositions of
 scalar splines of AlgoDiffType

---
 src/bezier_spline.hpp          |  1 +
 src/bezier_spline.inc          | 22 +++++++++++-----------
 src/rational_bezier_spline.inc |  6 +++---
 3 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/bezier_spline.hpp b/src/bezier_spline.hpp
index 9b0afc0..0dffdd8 100644
--- a/src/bezier_spline.hpp
+++ b/src/bezier_spline.hpp
@@ -37,6 +37,7 @@ SOFTWARE.
 #include "bezman/src/utils/fastbinomialcoefficient.hpp"
 #include "bezman/src/utils/logger.hpp"
 #include "bezman/src/utils/type_traits/is_bezier_spline.hpp"
+#include "bezman/src/utils/type_traits/is_point.hpp"
 #include "bezman/src/utils/type_traits/is_rational_bezier_spline.hpp"
 
 namespace bezman {
diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 4620f1d..0ddaba1 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -724,7 +724,7 @@ constexpr BezierSpline<parametric_dimension, ScalarType, ScalarType>
 BezierSpline<parametric_dimension, PhysicalPointType,
              ScalarType>::ExtractDimension(const IndexingType& dimension)
     const {
-  if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
+  if constexpr (!utils::type_traits::isPoint_v<PhysicalPointType>) {
     if (dimension != 0ul) {
       utils::Logger::TerminatingError(
           "Extraction of Scalar-value spline requested");
@@ -790,7 +790,7 @@ BezierSpline<parametric_dimension, PhysicalPointType,
   }
   PhysicalPointType maximum{control_points[0]};
   for (IndexingType i{1}; i < GetNumberOfControlPoints(); i++) {
-    if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
+    if constexpr (!utils::type_traits::isPoint_v<PhysicalPointType>) {
       maximum = std::max(maximum, control_points[i]);
     } else {
       for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
@@ -813,7 +813,7 @@ BezierSpline<parametric_dimension, PhysicalPointType,
   }
   PhysicalPointType minimum{control_points[0]};
   for (IndexingType i{1}; i < GetNumberOfControlPoints(); i++) {
-    if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
+    if constexpr (!utils::type_traits::isPoint_v<PhysicalPointType>) {
       minimum = std::min(minimum, control_points[i]);
     } else {
       for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
@@ -836,7 +836,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
   // Copy as the arguments might refer to the own control points
   const PhysicalPointType shift{transposition}, stretch{scale_vector};
   for (IndexingType i{}; i < GetNumberOfControlPoints(); i++) {
-    if constexpr (std::is_scalar_v<PhysicalPointType>) {
+    if constexpr (!utils::type_traits::isPoint_v<PhysicalPointType>) {
       control_points[i] = (shift + control_points[i]) * stretch;
     } else {
       for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
@@ -864,7 +864,7 @@ BezierSpline<parametric_dimension, PhysicalPointType,
     }
     return static_cast<ScalarType>(1) / extent;
   };
-  if constexpr (std::is_scalar_v<PhysicalPointType>) {
+  if constexpr (!utils::type_traits::isPoint_v<PhysicalPointType>) {
     scale_vector = inverse_extent(scale_vector);
   } else {
     for (IndexingType i_dim{}; i_dim < PhysicalPointType::kSpatialDimension;
@@ -881,7 +881,7 @@ constexpr bool BezierSpline<parametric_dimension, PhysicalPointType,
                             ScalarType>::FitsIntoUnitCube() const {
   const auto maximum_corner = MaximumCorner();
   const auto minimum_corner = MinimumCorner();
-  if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
+  if constexpr (!utils::type_traits::isPoint_v<PhysicalPointType>) {
     if ((maximum_corner > static_cast<ScalarType>(1)) ||
         (minimum_corner < static_cast<ScalarType>(0))) {
       return false;
@@ -949,7 +949,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::Compose(
   }
 
   // Check Dimensions (Scalar Value splines to be treaded as kSpDim = 1)
-  if constexpr (std::is_arithmetic_v<PointTypeRHS>) {
+  if constexpr (!utils::type_traits::isPoint_v<PointTypeRHS>) {
     static_assert(parametric_dimension == 1, "Dimension mismatch");
   } else {
     static_assert(PointTypeRHS::kSpatialDimension == parametric_dimension,
@@ -975,7 +975,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
   }
 
   // Check Dimensions (Scalar Value splines to be treaded as kSpDim = 1)
-  if constexpr (std::is_arithmetic_v<PointTypeRHS>) {
+  if constexpr (!utils::type_traits::isPoint_v<PointTypeRHS>) {
     static_assert(parametric_dimension == 1, "Dimension mismatch");
   } else {
     static_assert(PointTypeRHS::kSpatialDimension == parametric_dimension,
@@ -1000,7 +1000,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::Compose(
   }
 
   // Check Dimensions (Scalar Value splines to be treaded as kSpDim = 1)
-  if constexpr (std::is_arithmetic_v<PointTypeRHS>) {
+  if constexpr (!utils::type_traits::isPoint_v<PointTypeRHS>) {
     static_assert(parametric_dimension == 1, "Dimension mismatch");
   } else {
     static_assert(PointTypeRHS::kSpatialDimension == parametric_dimension,
@@ -1037,7 +1037,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
   }
 
   // Check Dimensions (Scalar Value splines to be treaded as kSpDim = 1)
-  if constexpr (std::is_arithmetic_v<PointTypeRHS>) {
+  if constexpr (!utils::type_traits::isPoint_v<PointTypeRHS>) {
     static_assert(parametric_dimension == 1, "Dimension mismatch");
   } else {
     static_assert(PointTypeRHS::kSpatialDimension == parametric_dimension,
@@ -1111,7 +1111,7 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::
       SplineType::kParametricDimensions;
 
   // Sanity check
-  if constexpr (std::is_arithmetic_v<PointTypeInnerFunction>) {
+  if constexpr (!utils::type_traits::isPoint_v<PointTypeInnerFunction>) {
     static_assert(parametric_dimension == 1, "Dimension mismatch");
   } else {
     static_assert(
diff --git a/src/rational_bezier_spline.inc b/src/rational_bezier_spline.inc
index 39e983f..85f44af 100644
--- a/src/rational_bezier_spline.inc
+++ b/src/rational_bezier_spline.inc
@@ -834,7 +834,7 @@ constexpr bool RationalBezierSpline<parametric_dimension, PhysicalPointType,
                                     ScalarType>::FitsIntoUnitCube() const {
   const auto maximum_corner = MaximumCorner();
   const auto minimum_corner = MinimumCorner();
-  if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
+  if constexpr (!utils::type_traits::isPoint_v<PhysicalPointType>) {
     if ((maximum_corner > static_cast<ScalarType>(1)) ||
         (minimum_corner < static_cast<ScalarType>(0))) {
       return false;
@@ -862,7 +862,7 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType,
   }
   PhysicalPointType minimum{ControlPoint(LocalToGlobalIndex(0))};
   for (IndexingType i{1}; i < GetNumberOfControlPoints(); i++) {
-    if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
+    if constexpr (!utils::type_traits::isPoint_v<PhysicalPointType>) {
       minimum =
           std::min(minimum, GetWeightedControlPoints()[i] / GetWeights()[i]);
     } else {
@@ -889,7 +889,7 @@ RationalBezierSpline<parametric_dimension, PhysicalPointType,
   }
   PhysicalPointType maximum{ControlPoint(LocalToGlobalIndex(0))};
   for (IndexingType i{1}; i < GetNumberOfControlPoints(); i++) {
-    if constexpr (std::is_arithmetic_v<PhysicalPointType>) {
+    if constexpr (!utils::type_traits::isPoint_v<PhysicalPointType>) {
       maximum =
           std::max(maximum, GetWeightedControlPoints()[i] / GetWeights()[i]);
     } else {
-- 
2.43.0


From 85d48d23e7ad78d25d14970bec0e85a0aa741dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:29 +0000
Subject: [PATCH 30/31] fix: sums of splines over different scalar types

---
 src/bezier_spline.inc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bezier_spline.inc b/src/bezier_spline.inc
index 0ddaba1..ea87b2b 100644
--- a/src/bezier_spline.inc
+++ b/src/bezier_spline.inc
@@ -604,7 +604,8 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator+(
 
   // Return type
   BezierSpline<parametric_dimension, PointTypeReturnT, ScalarReturnT>
-      return_spline(degrees, control_points);
+      return_spline(degrees, std::vector<PointTypeReturnT>(
+                                 control_points.begin(), control_points.end()));
 
   // Check if the right hand side requires a copy as it should not be
   // altered for this purpose
@@ -670,7 +671,8 @@ BezierSpline<parametric_dimension, PhysicalPointType, ScalarType>::operator-(
 
   // Return type
   BezierSpline<parametric_dimension, PointTypeReturnT, ScalarReturnT>
-      return_spline(degrees, control_points);
+      return_spline(degrees, std::vector<PointTypeReturnT>(
+                                 control_points.begin(), control_points.end()));
 
   // Increase the order of return_spline to be greater or equal to the
   // RHSs order
-- 
2.43.0


From f7104149ffa992b536b332f37c1ce005649d5c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:29 +0000
Subject: [PATCH 31/31] fix: norm of points of AlgoDiffType

---
 src/point.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/point.hpp b/src/point.hpp
index ebf49ea..2517ca2 100644
--- a/src/point.hpp
+++ b/src/point.hpp
@@ -177,7 +177,8 @@ class Point : public std::array<BaseType, spatial_dimension> {
 
   /// Calculate norm
   BaseType EuclidianNorm() const {
-    return std::sqrt((*this).SquaredEuclidianNorm());
+    using std::sqrt;  // required for intrinsic types
+    return sqrt((*this).SquaredEuclidianNorm());
   }
 
   /// Facilitate User Output
-- 
2.43.0

