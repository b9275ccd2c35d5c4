From da76d238547ca746cfe013285b12d87460741f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 01/45] fix: numeric_limits<Jet>::min_exponent10 returned
 max_exponent10

---
 include/ceres/jet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ceres/jet.h b/include/ceres/jet.h
index 3672011..f53c922 100644
--- a/include/ceres/jet.h
+++ b/include/ceres/jet.h
@@ -1373,7 +1373,7 @@ struct numeric_limits<ceres::Jet<T, N>> {
   static constexpr int max_digits10 = std::numeric_limits<T>::max_digits10;
   static constexpr int radix = std::numeric_limits<T>::radix;
   static constexpr int min_exponent = std::numeric_limits<T>::min_exponent;
-  static constexpr int min_exponent10 = std::numeric_limits<T>::max_exponent10;
+  static constexpr int min_exponent10 = std::numeric_limits<T>::min_exponent10;
   static constexpr int max_exponent = std::numeric_limits<T>::max_exponent;
   static constexpr int max_exponent10 = std::numeric_limits<T>::max_exponent10;
   static constexpr bool traps = std::numeric_limits<T>::traps;
-- 
2.43.0


From 7f14366df79f95ff8adafab1bf41a042e7762771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:01 +0000
Subject: [PATCH 02/45] fix: NumericDiffCostFunction reported success when the
 functor failed at a perturbed point

The result of EvaluateJacobianForParameterBlocks was dropped, so a functor that
fails while a Jacobian is being computed left (parts of) the Jacobian unwritten
while Evaluate returned true. DynamicNumericDiffCostFunction and
NumericDiffFirstOrderFunction already propagate the failure.
---
 include/ceres/numeric_diff_cost_function.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/ceres/numeric_diff_cost_function.h b/include/ceres/numeric_diff_cost_function.h
index 5889b70..e4aad2c 100644
--- a/include/ceres/numeric_diff_cost_function.h
+++ b/include/ceres/numeric_diff_cost_function.h
@@ -267,17 +267,15 @@ class NumericDiffCostFunction final
                   parameters_reference_copy[block]);
     }
 
-    internal::EvaluateJacobianForParameterBlocks<kMethod,
-                                                 kNumResiduals,
-                                                 ParameterDims>(
+    return internal::EvaluateJacobianForParameterBlocks<kMethod,
+                                                        kNumResiduals,
+                                                        ParameterDims>(
         functor_.get(),
         residuals,
         options_,
         this->num_residuals(),
         parameters_reference_copy.data(),
         jacobians);
-
-    return true;
   }
 
   const CostFunctor& functor() const { return *functor_; }
-- 
2.43.0


From b94d13a02122b4030454e5f89820d6f3915d1f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 03/45] fix: LineManifold Jacobians scaled the origin block by
 the norm of the direction

---
 include/ceres/line_manifold.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/ceres/line_manifold.h b/include/ceres/line_manifold.h
index 64b61ba..263eefa 100644
--- a/include/ceres/line_manifold.h
+++ b/include/ceres/line_manifold.h
@@ -225,15 +225,16 @@ bool LineManifold<AmbientSpaceDimension>::PlusJacobian(
   // Clear the Jacobian as only half of the matrix is not zero.
   jacobian.setZero();
 
-  auto jacobian_d =
+  auto jacobian_o =
       jacobian
           .template topLeftCorner<AmbientSpaceDimension, TangentSpaceDimension>(
               size_, size_ - 1);
-  auto jacobian_o = jacobian.template bottomRightCorner<AmbientSpaceDimension,
+  auto jacobian_d = jacobian.template bottomRightCorner<AmbientSpaceDimension,
                                                         TangentSpaceDimension>(
       size_, size_ - 1);
   internal::ComputeSphereManifoldPlusJacobian(d, &jacobian_d);
-  jacobian_o = jacobian_d;
+  // Unlike the direction, the step of the origin is not scaled by |d|.
+  jacobian_o = jacobian_d / d.norm();
   return true;
 }
 
@@ -279,15 +280,16 @@ bool LineManifold<AmbientSpaceDimension>::MinusJacobian(
   // Clear the Jacobian as only half of the matrix is not zero.
   jacobian.setZero();
 
-  auto jacobian_d =
+  auto jacobian_o =
       jacobian
           .template topLeftCorner<TangentSpaceDimension, AmbientSpaceDimension>(
               size_ - 1, size_);
-  auto jacobian_o = jacobian.template bottomRightCorner<TangentSpaceDimension,
+  auto jacobian_d = jacobian.template bottomRightCorner<TangentSpaceDimension,
                                                         AmbientSpaceDimension>(
       size_ - 1, size_);
   internal::ComputeSphereManifoldMinusJacobian(d, &jacobian_d);
-  jacobian_o = jacobian_d;
+  // Unlike the direction, the step of the origin is not scaled by |d|.
+  jacobian_o = jacobian_d * d.norm();
 
   return true;
 }
-- 
2.43.0


From b00857d39ebec6a2a0b98875d8569cc0f26b04ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:49 +0000
Subject: [PATCH 04/45] fix: RotationMatrixToQuaternion mixed up matrix and
 quaternion indices for EigenQuaternionOrder

---
 include/ceres/rotation.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/ceres/rotation.h b/include/ceres/rotation.h
index 7062ec3..8dc117e 100644
--- a/include/ceres/rotation.h
+++ b/include/ceres/rotation.h
@@ -470,23 +470,24 @@ void RotationMatrixToQuaternion(
     quaternion[Order::kY] = (R(0, 2) - R(2, 0)) * t;
     quaternion[Order::kZ] = (R(1, 0) - R(0, 1)) * t;
   } else {
-    int i = Order::kW;
+    int i = 0;
     if (R(1, 1) > R(0, 0)) {
-      i = Order::kX;
+      i = 1;
     }
 
     if (R(2, 2) > R(i, i)) {
-      i = Order::kY;
+      i = 2;
     }
 
     const int j = (i + 1) % 3;
     const int k = (j + 1) % 3;
+    constexpr int kXYZ[3] = {Order::kX, Order::kY, Order::kZ};
     T t = sqrt(R(i, i) - R(j, j) - R(k, k) + T(1.0));
-    quaternion[i + 1] = T(0.5) * t;
+    quaternion[kXYZ[i]] = T(0.5) * t;
     t = T(0.5) / t;
     quaternion[Order::kW] = (R(k, j) - R(j, k)) * t;
-    quaternion[j + 1] = (R(j, i) + R(i, j)) * t;
-    quaternion[k + 1] = (R(k, i) + R(i, k)) * t;
+    quaternion[kXYZ[j]] = (R(j, i) + R(i, j)) * t;
+    quaternion[kXYZ[k]] = (R(k, i) + R(i, k)) * t;
   }
 }
 
-- 
2.43.0


From 56804dee15243ae8cd50d943ac5ba6349ee3522d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:49 +0000
Subject: [PATCH 05/45] fix: QuaternionToAngleAxis had the wrong derivative at
 the quaternion [-1 0 0 0]

---
 include/ceres/rotation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ceres/rotation.h b/include/ceres/rotation.h
index 8dc117e..afb8dc0 100644
--- a/include/ceres/rotation.h
+++ b/include/ceres/rotation.h
@@ -443,7 +443,7 @@ inline void QuaternionToAngleAxis(const T* quaternion, T* angle_axis) {
     // the argument is zero.  By approximating with a Taylor series,
     // and truncating at one term, the value and first derivatives will be
     // computed correctly when Jets are used.
-    k = T(2.0);
+    k = copysign(T(2.0), quaternion[Order::kW]);
   }
 
   angle_axis[0] = q1 * k;
-- 
2.43.0


From eca668dad153721b587a10f4d9091833c9a8bb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:49 +0000
Subject: [PATCH 06/45] fix: EulerAnglesToRotationMatrix ignored its row stride

---
 include/ceres/rotation.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ceres/rotation.h b/include/ceres/rotation.h
index afb8dc0..4d62f88 100644
--- a/include/ceres/rotation.h
+++ b/include/ceres/rotation.h
@@ -697,7 +697,11 @@ template <typename T>
 inline void EulerAnglesToRotationMatrix(const T* euler,
                                         const int row_stride_parameter,
                                         T* R) {
-  EulerAnglesToRotationMatrix(euler, RowMajorAdapter3x3(R));
+  T packed[3 * 3];
+  EulerAnglesToRotationMatrix(euler, RowMajorAdapter3x3(packed));
+  for (int i = 0; i < 3; ++i) {
+    std::copy_n(packed + 3 * i, 3, R + row_stride_parameter * i);
+  }
 }
 
 template <typename T, int row_stride, int col_stride>
-- 
2.43.0


From 81c494bbe6c0680733b525b5bcea54546341c453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:20 +0000
Subject: [PATCH 07/45] fix: QuaternionToAngleAxis had non-finite derivatives
 for half turns

---
 include/ceres/rotation.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ceres/rotation.h b/include/ceres/rotation.h
index 4d62f88..6d31764 100644
--- a/include/ceres/rotation.h
+++ b/include/ceres/rotation.h
@@ -435,7 +435,9 @@ inline void QuaternionToAngleAxis(const T* quaternion, T* angle_axis) {
     //   theta - pi = atan(sin(theta - pi), cos(theta - pi))
     //              = atan(-sin(theta), -cos(theta))
     //
-    const T sign = copysign(T(1), cos_theta);
+    // The sign is a constant: copysign has no derivative for half turns, where
+    // cos_theta is zero.
+    const T sign(cos_theta < T(0.0) ? -1.0 : 1.0);
     const T two_theta = T(2.0) * atan2(sign * sin_theta, sign * cos_theta);
     k = two_theta / sin_theta;
   } else {
-- 
2.43.0


From d6e340b63c34982411234629c2c524195ee0b60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:42 +0000
Subject: [PATCH 08/45] fix: AngleAxisRotatePoint overflowed for tiny non-zero
 rotations

---
 include/ceres/rotation.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/ceres/rotation.h b/include/ceres/rotation.h
index 6d31764..f4a708b 100644
--- a/include/ceres/rotation.h
+++ b/include/ceres/rotation.h
@@ -891,11 +891,9 @@ inline void AngleAxisRotatePoint(const T angle_axis[3],
     //
     const T costheta = cos(theta);
     const T sintheta = sin(theta);
-    const T theta_inverse = T(1.0) / theta;
 
-    const T w[3] = {angle_axis[0] * theta_inverse,
-                    angle_axis[1] * theta_inverse,
-                    angle_axis[2] * theta_inverse};
+    const T w[3] = {
+        angle_axis[0] / theta, angle_axis[1] / theta, angle_axis[2] / theta};
 
     // Explicitly inlined evaluation of the cross product for
     // performance reasons.
-- 
2.43.0


From 4be64d489d02abdc573264dcd64a3ca35f8f2ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 09/45] fix: cubic interpolation read outside the grid for
 queries beyond the range of int

---
 include/ceres/cubic_interpolation.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/ceres/cubic_interpolation.h b/include/ceres/cubic_interpolation.h
index e3797d1..f78c898 100644
--- a/include/ceres/cubic_interpolation.h
+++ b/include/ceres/cubic_interpolation.h
@@ -33,6 +33,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <limits>
 #include <type_traits>
 
 #include "Eigen/Core"
@@ -41,6 +42,16 @@
 
 namespace ceres {
 
+namespace internal {
+// Largest integer n not above x, kept in a range where neither n nor its
+// neighbours n - 1, n + 1 and n + 2 overflow an int, for any x including NaN.
+inline int CubicInterpolationCell(const double x) {
+  return static_cast<int>(
+      std::fmax(std::numeric_limits<int>::min() + 1.0,
+                std::fmin(std::numeric_limits<int>::max() - 2.0, std::floor(x))));
+}
+}  // namespace internal
+
 // Given samples from a function sampled at four equally spaced points,
 //
 //   p0 = f(-1)
@@ -135,7 +146,7 @@ class CubicInterpolator {
   }
 
   void Evaluate(double x, double* f, double* dfdx) const {
-    const int n = std::floor(x);
+    const int n = internal::CubicInterpolationCell(x);
     Eigen::Matrix<double, Grid::DATA_DIMENSION, 1> p0, p1, p2, p3;
     grid_.GetValue(n - 1, p0.data());
     grid_.GetValue(n, p1.data());
@@ -283,8 +294,8 @@ class BiCubicInterpolator {
     // The point (r,c) being evaluated is assumed to lie in the square
     // defined by p11, p12, p22 and p21.
 
-    const int row = std::floor(r);
-    const int col = std::floor(c);
+    const int row = internal::CubicInterpolationCell(r);
+    const int col = internal::CubicInterpolationCell(c);
 
     Eigen::Matrix<double, Grid::DATA_DIMENSION, 1> p0, p1, p2, p3;
 
-- 
2.43.0


From af27ccc7be36926c344b67a3679ad30dd418cd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:48 +0000
Subject: [PATCH 10/45] fix: Problem::Evaluate indexed into empty residual and
 gradient vectors

---
 internal/ceres/problem_impl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/problem_impl.cc b/internal/ceres/problem_impl.cc
index ef5851b..27ffb5c 100644
--- a/internal/ceres/problem_impl.cc
+++ b/internal/ceres/problem_impl.cc
@@ -723,8 +723,8 @@ bool ProblemImpl::Evaluate(const Problem::EvaluateOptions& evaluate_options,
       evaluator->Evaluate(evaluator_evaluate_options,
                           parameters.data(),
                           &tmp_cost,
-                          residuals != nullptr ? &(*residuals)[0] : nullptr,
-                          gradient != nullptr ? &(*gradient)[0] : nullptr,
+                          residuals != nullptr ? residuals->data() : nullptr,
+                          gradient != nullptr ? gradient->data() : nullptr,
                           tmp_jacobian.get());
 
   // Make the parameter blocks that were temporarily marked constant,
-- 
2.43.0


From 6c75540bcbe3711551c0fd8e0d5bb32b667d4688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:01 +0000
Subject: [PATCH 11/45] fix: moving into a cost function deleted the functor it
 did not own

---
 include/ceres/autodiff_cost_function.h             | 10 ++++++++--
 include/ceres/autodiff_first_order_function.h      |  9 ++++++++-
 include/ceres/dynamic_autodiff_cost_function.h     |  9 ++++++++-
 include/ceres/dynamic_numeric_diff_cost_function.h | 10 +++++++++-
 include/ceres/numeric_diff_cost_function.h         | 11 +++++++++--
 include/ceres/numeric_diff_first_order_function.h  | 10 +++++++++-
 6 files changed, 51 insertions(+), 8 deletions(-)

diff --git a/include/ceres/autodiff_cost_function.h b/include/ceres/autodiff_cost_function.h
index 667b385..5d19fdf 100644
--- a/include/ceres/autodiff_cost_function.h
+++ b/include/ceres/autodiff_cost_function.h
@@ -129,6 +129,7 @@
 
 #include <memory>
 #include <type_traits>
+#include <utility>
 
 #include "ceres/internal/autodiff.h"
 #include "ceres/sized_cost_function.h"
@@ -204,8 +205,13 @@ class AutoDiffCostFunction final
             std::unique_ptr<CostFunctor>(functor), num_residuals, ownership) {}
 
   AutoDiffCostFunction(AutoDiffCostFunction&& other) noexcept = default;
-  AutoDiffCostFunction& operator=(AutoDiffCostFunction&& other) noexcept =
-      default;
+  AutoDiffCostFunction& operator=(AutoDiffCostFunction&& other) noexcept {
+    // Swap, so that a functor which is not owned is released and not deleted.
+    SizedCostFunction<kNumResiduals, Ns...>::operator=(std::move(other));
+    std::swap(functor_, other.functor_);
+    std::swap(ownership_, other.ownership_);
+    return *this;
+  }
   AutoDiffCostFunction(const AutoDiffCostFunction& other) = delete;
   AutoDiffCostFunction& operator=(const AutoDiffCostFunction& other) = delete;
 
diff --git a/include/ceres/autodiff_first_order_function.h b/include/ceres/autodiff_first_order_function.h
index d29c8d6..ed16ed9 100644
--- a/include/ceres/autodiff_first_order_function.h
+++ b/include/ceres/autodiff_first_order_function.h
@@ -33,6 +33,7 @@
 
 #include <memory>
 #include <type_traits>
+#include <utility>
 
 #include "absl/container/fixed_array.h"
 #include "ceres/first_order_function.h"
@@ -137,7 +138,13 @@ class AutoDiffFirstOrderFunction final : public FirstOrderFunction {
   AutoDiffFirstOrderFunction(AutoDiffFirstOrderFunction&& other) noexcept =
       default;
   AutoDiffFirstOrderFunction& operator=(
-      AutoDiffFirstOrderFunction&& other) noexcept = default;
+      AutoDiffFirstOrderFunction&& other) noexcept {
+    // Swap, so that a functor which is not owned is released and not deleted.
+    FirstOrderFunction::operator=(std::move(other));
+    std::swap(functor_, other.functor_);
+    std::swap(ownership_, other.ownership_);
+    return *this;
+  }
 
   ~AutoDiffFirstOrderFunction() override {
     if (ownership_ == DO_NOT_TAKE_OWNERSHIP) {
diff --git a/include/ceres/dynamic_autodiff_cost_function.h b/include/ceres/dynamic_autodiff_cost_function.h
index 05b13bc..943f9e7 100644
--- a/include/ceres/dynamic_autodiff_cost_function.h
+++ b/include/ceres/dynamic_autodiff_cost_function.h
@@ -36,6 +36,7 @@
 #include <memory>
 #include <numeric>
 #include <type_traits>
+#include <utility>
 #include <vector>
 
 #include "absl/container/fixed_array.h"
@@ -112,7 +113,13 @@ class DynamicAutoDiffCostFunction final : public DynamicCostFunction {
   DynamicAutoDiffCostFunction(DynamicAutoDiffCostFunction&& other) noexcept =
       default;
   DynamicAutoDiffCostFunction& operator=(
-      DynamicAutoDiffCostFunction&& other) noexcept = default;
+      DynamicAutoDiffCostFunction&& other) noexcept {
+    // Swap, so that a functor which is not owned is released and not deleted.
+    DynamicCostFunction::operator=(std::move(other));
+    std::swap(functor_, other.functor_);
+    std::swap(ownership_, other.ownership_);
+    return *this;
+  }
 
   ~DynamicAutoDiffCostFunction() override {
     // Manually release pointer if configured to not take ownership
diff --git a/include/ceres/dynamic_numeric_diff_cost_function.h b/include/ceres/dynamic_numeric_diff_cost_function.h
index a25bd8f..9141c9d 100644
--- a/include/ceres/dynamic_numeric_diff_cost_function.h
+++ b/include/ceres/dynamic_numeric_diff_cost_function.h
@@ -38,6 +38,7 @@
 #include <memory>
 #include <numeric>
 #include <type_traits>
+#include <utility>
 #include <vector>
 
 #include "absl/container/fixed_array.h"
@@ -114,7 +115,14 @@ class DynamicNumericDiffCostFunction final : public DynamicCostFunction {
   DynamicNumericDiffCostFunction(
       DynamicNumericDiffCostFunction&& other) noexcept = default;
   DynamicNumericDiffCostFunction& operator=(
-      DynamicNumericDiffCostFunction&& other) noexcept = default;
+      DynamicNumericDiffCostFunction&& other) noexcept {
+    // Swap, so that a functor which is not owned is released and not deleted.
+    DynamicCostFunction::operator=(std::move(other));
+    std::swap(functor_, other.functor_);
+    std::swap(ownership_, other.ownership_);
+    options_ = other.options_;
+    return *this;
+  }
 
   ~DynamicNumericDiffCostFunction() override {
     if (ownership_ == DO_NOT_TAKE_OWNERSHIP) {
diff --git a/include/ceres/numeric_diff_cost_function.h b/include/ceres/numeric_diff_cost_function.h
index e4aad2c..a97e2bb 100644
--- a/include/ceres/numeric_diff_cost_function.h
+++ b/include/ceres/numeric_diff_cost_function.h
@@ -164,6 +164,7 @@
 #include <array>
 #include <memory>
 #include <type_traits>
+#include <utility>
 
 #include "Eigen/Dense"
 #include "ceres/cost_function.h"
@@ -224,8 +225,14 @@ class NumericDiffCostFunction final
             NumericDiffOptions()) {}
 
   NumericDiffCostFunction(NumericDiffCostFunction&& other) noexcept = default;
-  NumericDiffCostFunction& operator=(NumericDiffCostFunction&& other) noexcept =
-      default;
+  NumericDiffCostFunction& operator=(NumericDiffCostFunction&& other) noexcept {
+    // Swap, so that a functor which is not owned is released and not deleted.
+    SizedCostFunction<kNumResiduals, Ns...>::operator=(std::move(other));
+    std::swap(functor_, other.functor_);
+    std::swap(ownership_, other.ownership_);
+    options_ = other.options_;
+    return *this;
+  }
   NumericDiffCostFunction(const NumericDiffCostFunction&) = delete;
   NumericDiffCostFunction& operator=(const NumericDiffCostFunction&) = delete;
 
diff --git a/include/ceres/numeric_diff_first_order_function.h b/include/ceres/numeric_diff_first_order_function.h
index b6f8c34..415ab16 100644
--- a/include/ceres/numeric_diff_first_order_function.h
+++ b/include/ceres/numeric_diff_first_order_function.h
@@ -125,7 +125,15 @@ class NumericDiffFirstOrderFunction final : public FirstOrderFunction {
   NumericDiffFirstOrderFunction(
       NumericDiffFirstOrderFunction&& other) noexcept = default;
   NumericDiffFirstOrderFunction& operator=(
-      NumericDiffFirstOrderFunction&& other) noexcept = default;
+      NumericDiffFirstOrderFunction&& other) noexcept {
+    // Swap, so that a functor which is not owned is released and not deleted.
+    FirstOrderFunction::operator=(std::move(other));
+    std::swap(functor_, other.functor_);
+    std::swap(ownership_, other.ownership_);
+    num_parameters_ = other.num_parameters_;
+    options_ = other.options_;
+    return *this;
+  }
 
   // Constructor for the case where the parameter size is known at compile time.
   explicit NumericDiffFirstOrderFunction(
-- 
2.43.0


From 6169a8ff7ea5025ba34424dc4999093c5644c973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 12/45] fix: final_cost reported the cost of a rejected step

---
 internal/ceres/solver_utils.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/ceres/solver_utils.h b/internal/ceres/solver_utils.h
index 60bca91..d2047a7 100644
--- a/internal/ceres/solver_utils.h
+++ b/internal/ceres/solver_utils.h
@@ -55,6 +55,11 @@ void SetSummaryFinalCost(SummaryType* summary) {
   // iteration because the minimizer maybe making non-monotonic steps.
   for (int i = 0; i < summary->iterations.size(); ++i) {
     const IterationSummary& iteration_summary = summary->iterations[i];
+    // The cost of an unsuccessful iteration is the cost of a point that was
+    // rejected, which can be lower than that of the point which was kept.
+    if (!iteration_summary.step_is_successful) {
+      continue;
+    }
     summary->final_cost = std::min(iteration_summary.cost, summary->final_cost);
   }
 }
-- 
2.43.0


From eae348d14523ddc6d2280aa4ff73327b2bef0bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 13/45] fix: Wolfe line search announced an earlier point as
 the last evaluated one

---
 internal/ceres/line_search_minimizer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/line_search_minimizer.cc b/internal/ceres/line_search_minimizer.cc
index 1f0b05b..61eabba 100644
--- a/internal/ceres/line_search_minimizer.cc
+++ b/internal/ceres/line_search_minimizer.cc
@@ -355,8 +355,11 @@ void LineSearchMinimizer::Minimize(const Minimizer::Options& options,
       current_state.cost = optimal_point.value;
       current_state.gradient = optimal_point.vector_gradient;
     } else {
+      // The ARMIJO line search returns the last point it evaluated, but the
+      // WOLFE line search may return an earlier one.
       Evaluator::EvaluateOptions evaluate_options;
-      evaluate_options.new_evaluation_point = false;
+      evaluate_options.new_evaluation_point =
+          (options.line_search_type != ARMIJO);
       if (!evaluator->Evaluate(evaluate_options,
                                optimal_point.vector_x.data(),
                                &(current_state.cost),
-- 
2.43.0


From 10d8e91fc4956b65fcafaba56d9a712c3f9281ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 14/45] fix: Trust region iterations up to the first successful
 step report their step norm

---
 internal/ceres/trust_region_minimizer.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/trust_region_minimizer.cc b/internal/ceres/trust_region_minimizer.cc
index c2c10f8..6413f5c 100644
--- a/internal/ceres/trust_region_minimizer.cc
+++ b/internal/ceres/trust_region_minimizer.cc
@@ -110,6 +110,9 @@ void TrustRegionMinimizer::Minimize(const Minimizer::Options& options,
     ComputeCandidatePointAndEvaluateCost();
     DoInnerIterationsIfNeeded();
 
+    // Compute the norm of the step in the ambient space.
+    iteration_summary_.step_norm = (x_ - candidate_x_).norm();
+
     if (atleast_one_successful_step && ParameterToleranceReached()) {
       return;
     }
@@ -726,8 +729,6 @@ bool TrustRegionMinimizer::MinTrustRegionRadiusReached() {
 bool TrustRegionMinimizer::ParameterToleranceReached() {
   const double x_norm = x_.norm();
 
-  // Compute the norm of the step in the ambient space.
-  iteration_summary_.step_norm = (x_ - candidate_x_).norm();
   const double step_size_tolerance =
       options_.parameter_tolerance * (x_norm + options_.parameter_tolerance);
 
-- 
2.43.0


From 6337ac51a43c2c853ff0a145da12f012f85fc230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 15/45] fix: Report the value of eta used by every trust region
 iteration

---
 internal/ceres/trust_region_minimizer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ceres/trust_region_minimizer.cc b/internal/ceres/trust_region_minimizer.cc
index 6413f5c..00e9bb4 100644
--- a/internal/ceres/trust_region_minimizer.cc
+++ b/internal/ceres/trust_region_minimizer.cc
@@ -93,6 +93,7 @@ void TrustRegionMinimizer::Minimize(const Minimizer::Options& options,
     iteration_summary_ = IterationSummary();
     iteration_summary_.iteration =
         solver_summary->iterations.back().iteration + 1;
+    iteration_summary_.eta = options_.eta;
 
     RETURN_IF_ERROR_AND_LOG(ComputeTrustRegionStep());
     if (!iteration_summary_.step_is_valid) {
@@ -498,7 +499,6 @@ bool TrustRegionMinimizer::HandleInvalidStep() {
       solver_summary_->iterations.back().gradient_norm;
   iteration_summary_.step_norm = 0.0;
   iteration_summary_.relative_decrease = 0.0;
-  iteration_summary_.eta = options_.eta;
   return true;
 }
 
-- 
2.43.0


From 96f1e4e08e93bb87512e1aeed715040f09a0ed4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 16/45] fix: Dogleg does not grow the radius beyond
 max_trust_region_radius

---
 internal/ceres/dogleg_strategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ceres/dogleg_strategy.cc b/internal/ceres/dogleg_strategy.cc
index ef45a0b..666a00f 100644
--- a/internal/ceres/dogleg_strategy.cc
+++ b/internal/ceres/dogleg_strategy.cc
@@ -623,7 +623,7 @@ void DoglegStrategy::StepAccepted(double step_quality) {
   }
 
   if (step_quality > increase_threshold_) {
-    radius_ = std::max(radius_, 3.0 * dogleg_step_norm_);
+    radius_ = std::min(max_radius_, std::max(radius_, 3.0 * dogleg_step_norm_));
   }
 
   // Reduce the regularization multiplier, in the hope that whatever
-- 
2.43.0


From 44b7b8d3fac451f36a3c7bbd3ac5acc2e3aa5772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 17/45] fix: A step that Plus refuses does not count as a
 converged zero step

---
 internal/ceres/trust_region_minimizer.cc | 18 ++++++++++++------
 internal/ceres/trust_region_minimizer.h  |  2 +-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/internal/ceres/trust_region_minimizer.cc b/internal/ceres/trust_region_minimizer.cc
index 00e9bb4..41435fc 100644
--- a/internal/ceres/trust_region_minimizer.cc
+++ b/internal/ceres/trust_region_minimizer.cc
@@ -108,13 +108,15 @@ void TrustRegionMinimizer::Minimize(const Minimizer::Options& options,
       DoLineSearch(x_, gradient_, x_cost_, &delta_);
     }
 
-    ComputeCandidatePointAndEvaluateCost();
+    const bool candidate_x_is_valid = ComputeCandidatePointAndEvaluateCost();
     DoInnerIterationsIfNeeded();
 
-    // Compute the norm of the step in the ambient space.
-    iteration_summary_.step_norm = (x_ - candidate_x_).norm();
+    if (candidate_x_is_valid) {
+      // Compute the norm of the step in the ambient space.
+      iteration_summary_.step_norm = (x_ - candidate_x_).norm();
+    }
 
-    if (atleast_one_successful_step && ParameterToleranceReached()) {
+    if (candidate_x_is_valid && atleast_one_successful_step && ParameterToleranceReached()) {
       return;
     }
 
@@ -779,14 +781,17 @@ bool TrustRegionMinimizer::FunctionToleranceReached() {
 // a candidate point, and if for some reason we are unable to evaluate it, we
 // consider it to be a point with very high cost. This allows the user to deal
 // with edge cases/constraints as part of the Manifold and CostFunction objects.
-void TrustRegionMinimizer::ComputeCandidatePointAndEvaluateCost() {
+//
+// Returns false if the step could not be computed, in which case the contents
+// of candidate_x_ are undefined.
+bool TrustRegionMinimizer::ComputeCandidatePointAndEvaluateCost() {
   if (!evaluator_->Plus(x_.data(), delta_.data(), candidate_x_.data())) {
     if (is_not_silent_) {
       LOG(WARNING) << "x_plus_delta = Plus(x, delta) failed. "
                    << "Treating it as a step with infinite cost";
     }
     candidate_cost_ = std::numeric_limits<double>::max();
-    return;
+    return false;
   }
 
   if (!evaluator_->Evaluate(
@@ -797,6 +802,7 @@ void TrustRegionMinimizer::ComputeCandidatePointAndEvaluateCost() {
     }
     candidate_cost_ = std::numeric_limits<double>::max();
   }
+  return true;
 }
 
 bool TrustRegionMinimizer::IsStepSuccessful() {
diff --git a/internal/ceres/trust_region_minimizer.h b/internal/ceres/trust_region_minimizer.h
index 91f9deb..b754926 100644
--- a/internal/ceres/trust_region_minimizer.h
+++ b/internal/ceres/trust_region_minimizer.h
@@ -65,7 +65,7 @@ class CERES_NO_EXPORT TrustRegionMinimizer final : public Minimizer {
   bool ComputeTrustRegionStep();
 
   bool EvaluateGradientAndJacobian(bool new_evaluation_point);
-  void ComputeCandidatePointAndEvaluateCost();
+  bool ComputeCandidatePointAndEvaluateCost();
 
   void DoLineSearch(const Vector& x,
                     const Vector& gradient,
-- 
2.43.0


From 4bfbaee7be48e0b3196953d43183a041353cbfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 18/45] fix: The roots of a * x^2 are zero and not NaN

---
 internal/ceres/polynomial.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/polynomial.cc b/internal/ceres/polynomial.cc
index a0596c6..9e0bd6e 100644
--- a/internal/ceres/polynomial.cc
+++ b/internal/ceres/polynomial.cc
@@ -158,7 +158,9 @@ void FindQuadraticPolynomialRoots(const Vector& polynomial,
 
   // Real roots.
   if (D >= 0) {
-    if (real != nullptr) {
+    // If b = c = 0, then zero is a double root and the formulae below would
+    // divide zero by zero.
+    if (real != nullptr && (b != 0.0 || sqrt_D != 0.0)) {
       // Stable quadratic roots according to BKP Horn.
       // http://people.csail.mit.edu/bkph/articles/Quadratics.pdf
       if (b >= 0) {
-- 
2.43.0


From 5b65c4e84e601fb9a01ba7df197ccfb0ff134d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 19/45] fix: Restart conjugate gradients if the search
 direction is not finite

---
 internal/ceres/line_search_direction.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/line_search_direction.cc b/internal/ceres/line_search_direction.cc
index b4e8a33..8a2abb3 100644
--- a/internal/ceres/line_search_direction.cc
+++ b/internal/ceres/line_search_direction.cc
@@ -84,7 +84,10 @@ class CERES_NO_EXPORT NonlinearConjugateGradient final
     *search_direction = -current.gradient + beta * previous.search_direction;
     const double directional_derivative =
         current.gradient.dot(*search_direction);
-    if (directional_derivative > -function_tolerance_) {
+    // The negation also restarts if the update is not a number, e.g. if the
+    // gradient has not changed and type_ is HESTENES_STIEFEL.
+    if (!(directional_derivative <= -function_tolerance_) ||
+        !search_direction->allFinite()) {
       LOG(WARNING) << "Restarting non-linear conjugate gradients: "
                    << directional_derivative;
       *search_direction = -current.gradient;
-- 
2.43.0


From c028843cf4b42122c5103175e76740b0a2505e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 20/45] fix: Wolfe line search returns the best point if its
 last evaluation fails

---
 internal/ceres/line_search.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/ceres/line_search.cc b/internal/ceres/line_search.cc
index 039975d..4be3f53 100644
--- a/internal/ceres/line_search.cc
+++ b/internal/ceres/line_search.cc
@@ -616,10 +616,11 @@ bool WolfeLineSearch::BracketingPhase(const FunctionSample& initial_position,
       // Ensure that bracket_low is always set to the step size amongst all
       // those tested which minimizes f() and satisfies the Armijo condition
       // when we terminate due to the 'artificial' max_num_iterations condition.
-      *bracket_low =
-          current.value_is_valid && current.value < bracket_low->value
-              ? current
-              : *bracket_low;
+      //
+      // If f(current) is valid, it is no larger than f(previous), otherwise we
+      // would have found a bracket. If it is not valid, then previous is the
+      // last valid point, or the initial position if there is no such point.
+      *bracket_low = current.value_is_valid ? current : previous;
       break;
     }
     // Either: f(current) is invalid; or, f(current) is valid, but does not
-- 
2.43.0


From 5da8f80a2240bf37d6fa1b6e794f2036e717be6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 21/45] fix: Wolfe line search treats non-finite gradients as
 invalid samples

---
 internal/ceres/line_search.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ceres/line_search.cc b/internal/ceres/line_search.cc
index 4be3f53..eba5d4f 100644
--- a/internal/ceres/line_search.cc
+++ b/internal/ceres/line_search.cc
@@ -529,6 +529,11 @@ bool WolfeLineSearch::BracketingPhase(const FunctionSample& initial_position,
   while (true) {
     ++summary->num_iterations;
 
+    // The Wolfe conditions and ZoomPhase() need the gradient as well as the
+    // value, thus a sample whose gradient is not valid is of no use to us.
+    current.value_is_valid =
+        current.value_is_valid && current.gradient_is_valid;
+
     if (current.value_is_valid &&
         (current.value > (initial_position.value +
                           options().sufficient_decrease *
@@ -842,6 +847,7 @@ bool WolfeLineSearch::ZoomPhase(const FunctionSample& initial_position,
       if (!options().is_silent) {
         LOG(WARNING) << summary->error;
       }
+      solution->value_is_valid = false;
       return false;
     }
 
-- 
2.43.0


From 6e1977f00335e04d09b9627f9a99900c5eee9576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 22/45] fix: appending rows without entries to a full
 compressed row matrix

CompressedRowSparseMatrix::AppendRows checked that there is room for at least
one more entry even when the appended matrix has none, which aborts debug
builds. Check it only when there is something to copy.
---
 internal/ceres/compressed_row_sparse_matrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ceres/compressed_row_sparse_matrix.cc b/internal/ceres/compressed_row_sparse_matrix.cc
index b474cca..b0aa49b 100644
--- a/internal/ceres/compressed_row_sparse_matrix.cc
+++ b/internal/ceres/compressed_row_sparse_matrix.cc
@@ -500,8 +500,8 @@ void CompressedRowSparseMatrix::AppendRows(const CompressedRowSparseMatrix& m) {
   }
 
   // Copy the contents of m into this matrix.
-  DCHECK_LT(num_nonzeros(), cols_.size());
   if (m.num_nonzeros() > 0) {
+    DCHECK_LT(num_nonzeros(), cols_.size());
     std::copy(m.cols(), m.cols() + m.num_nonzeros(), &cols_[num_nonzeros()]);
     std::copy(
         m.values(), m.values() + m.num_nonzeros(), &values_[num_nonzeros()]);
-- 
2.43.0


From 129975b4de276faa5fb7dccfdb4b6f4853137c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:24 +0000
Subject: [PATCH 23/45] fix: indefinite matrices are not positive definite for
 EIGEN_SPARSE

SimplicialLDLT factorizes indefinite matrices without complaint, so
SparseCholesky::Factorize reported success for them. In particular the
CLUSTER_TRIDIAGONAL preconditioner relies on that failure to scale its
off-diagonal blocks, and ended up with an indefinite preconditioner.
---
 internal/ceres/eigensparse.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/ceres/eigensparse.cc b/internal/ceres/eigensparse.cc
index 1bc16b6..9a9c144 100644
--- a/internal/ceres/eigensparse.cc
+++ b/internal/ceres/eigensparse.cc
@@ -30,6 +30,7 @@
 
 #include "ceres/eigensparse.h"
 
+#include <limits>
 #include <memory>
 
 #ifdef CERES_USE_EIGEN_SPARSE
@@ -87,6 +88,19 @@ class EigenSparseCholeskyTemplate final : public SparseCholesky {
       *message = "Eigen failure. Unable to find numeric factorization.";
       return LinearSolverTerminationType::FAILURE;
     }
+
+    // SimplicialLDLT also factorizes indefinite matrices. Pivots that are
+    // negative beyond what rounding can explain mean that lhs is not positive
+    // (semi)definite, i.e., it does not have a Cholesky factorization.
+    if (solver_.rows() > 0) {
+      const auto& pivots = solver_.vectorD();
+      if (pivots.minCoeff() <
+          -pivots.maxCoeff() * solver_.rows() *
+              std::numeric_limits<typename Solver::Scalar>::epsilon()) {
+        *message = "Eigen failure. Matrix is not positive definite.";
+        return LinearSolverTerminationType::FAILURE;
+      }
+    }
     return LinearSolverTerminationType::SUCCESS;
   }
 
-- 
2.43.0


From f808eaf1155db05d03eb2e336a4a7dcbff6cdf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:04 +0000
Subject: [PATCH 24/45] fix: iterative refinement of dense Cholesky uses the
 original symmetric matrix

---
 internal/ceres/dense_cholesky.cc | 7 ++++---
 internal/ceres/dense_cholesky.h  | 6 ++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/internal/ceres/dense_cholesky.cc b/internal/ceres/dense_cholesky.cc
index 631cfbb..fbafc27 100644
--- a/internal/ceres/dense_cholesky.cc
+++ b/internal/ceres/dense_cholesky.cc
@@ -329,7 +329,8 @@ RefinedDenseCholesky::~RefinedDenseCholesky() = default;
 
 LinearSolverTerminationType RefinedDenseCholesky::Factorize(
     const int num_cols, double* lhs, std::string* message) {
-  lhs_ = lhs;
+  lhs_ = Eigen::Map<const Eigen::MatrixXd>(lhs, num_cols, num_cols)
+             .selfadjointView<Eigen::Lower>();
   num_cols_ = num_cols;
   return dense_cholesky_->Factorize(num_cols, lhs, message);
 }
@@ -337,14 +338,14 @@ LinearSolverTerminationType RefinedDenseCholesky::Factorize(
 LinearSolverTerminationType RefinedDenseCholesky::Solve(const double* rhs,
                                                         double* solution,
                                                         std::string* message) {
-  CHECK(lhs_ != nullptr);
+  CHECK_GT(lhs_.size(), 0);
   auto termination_type = dense_cholesky_->Solve(rhs, solution, message);
   if (termination_type != LinearSolverTerminationType::SUCCESS) {
     return termination_type;
   }
 
   iterative_refiner_->Refine(
-      num_cols_, lhs_, rhs, dense_cholesky_.get(), solution);
+      num_cols_, lhs_.data(), rhs, dense_cholesky_.get(), solution);
   return LinearSolverTerminationType::SUCCESS;
 }
 
diff --git a/internal/ceres/dense_cholesky.h b/internal/ceres/dense_cholesky.h
index 4f55c58..f3bf29f 100644
--- a/internal/ceres/dense_cholesky.h
+++ b/internal/ceres/dense_cholesky.h
@@ -188,8 +188,10 @@ class CERES_NO_EXPORT RefinedDenseCholesky final : public DenseCholesky {
  private:
   std::unique_ptr<DenseCholesky> dense_cholesky_;
   std::unique_ptr<DenseIterativeRefiner> iterative_refiner_;
-  double* lhs_ = nullptr;
-  int num_cols_;
+  // Copy of the left hand side, since the factorization may overwrite it, and
+  // only its lower triangular part is given.
+  Eigen::MatrixXd lhs_;
+  int num_cols_ = 0;
 };
 
 #ifndef CERES_NO_CUDA
-- 
2.43.0


From e53fd7807b24ec2f38c98b3a40f35a0191f17a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:04 +0000
Subject: [PATCH 25/45] fix: back substitute when explicit ITERATIVE_SCHUR runs
 out of iterations

---
 internal/ceres/schur_complement_solver.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/schur_complement_solver.cc b/internal/ceres/schur_complement_solver.cc
index 4a2fbba..bfdd43d 100644
--- a/internal/ceres/schur_complement_solver.cc
+++ b/internal/ceres/schur_complement_solver.cc
@@ -149,7 +149,10 @@ LinearSolver::Summary SchurComplementSolver::SolveImpl(
       SolveReducedLinearSystem(per_solve_options, reduced_solution);
   event_logger.AddEvent("ReducedSolve");
 
-  if (summary.termination_type == LinearSolverTerminationType::SUCCESS) {
+  // An iterative solver which ran out of iterations still gives a usable
+  // solution to the reduced linear system.
+  if (summary.termination_type != LinearSolverTerminationType::FAILURE &&
+      summary.termination_type != LinearSolverTerminationType::FATAL_ERROR) {
     eliminator_->BackSubstitute(
         BlockSparseMatrixData(*A), b, per_solve_options.D, reduced_solution, x);
     event_logger.AddEvent("BackSubstitute");
-- 
2.43.0


From f47e5c8c718b91a00dbcd317814c8a653f743f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:04 +0000
Subject: [PATCH 26/45] fix: conjugate gradients succeeds when the residual is
 exactly zero

---
 internal/ceres/conjugate_gradients_solver.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/ceres/conjugate_gradients_solver.h b/internal/ceres/conjugate_gradients_solver.h
index ba70a13..15c14bc 100644
--- a/internal/ceres/conjugate_gradients_solver.h
+++ b/internal/ceres/conjugate_gradients_solver.h
@@ -144,7 +144,10 @@ LinearSolver::Summary ConjugateGradientsSolver(
   Axpby(1.0, rhs, -1.0, tmp, r, options.context, options.num_threads);
 
   double norm_r = Norm(r, options.context, options.num_threads);
-  if (options.min_num_iterations == 0 && norm_r <= tol_r) {
+  // A zero residual means that solution is exact, and that there is no direction
+  // along which to iterate any further.
+  if (norm_r == 0.0 ||
+      (options.min_num_iterations == 0 && norm_r <= tol_r)) {
     summary.termination_type = LinearSolverTerminationType::SUCCESS;
     summary.message =
         absl::StrFormat("Convergence. |r| = %e <= %e.", norm_r, tol_r);
@@ -286,8 +289,9 @@ LinearSolver::Summary ConjugateGradientsSolver(
 
     // Residual based termination.
     norm_r = Norm(r, options.context, options.num_threads);
-    if (norm_r <= tol_r &&
-        summary.num_iterations >= options.min_num_iterations) {
+    if (norm_r == 0.0 ||
+        (norm_r <= tol_r &&
+         summary.num_iterations >= options.min_num_iterations)) {
       summary.termination_type = LinearSolverTerminationType::SUCCESS;
       summary.message =
           absl::StrFormat("Iteration: %d Convergence. |r| = %e <= %e.",
-- 
2.43.0


From c707e305c153cbebaf7bd903acdff7fbf57b62c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:38 +0000
Subject: [PATCH 27/45] fix: querying a covariance block not computed when only
 zero ones were

---
 internal/ceres/covariance_impl.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index b2449f9..4c2aa35 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -164,6 +164,14 @@ bool CovarianceImpl::GetCovarianceBlockInTangentOrAmbientSpace(
     return true;
   }
 
+  if (covariance_matrix_ == nullptr) {
+    // All the covariance blocks that were requested are zero, because they
+    // involve constant parameter blocks, so this one was not computed.
+    LOG(ERROR) << "Unable to find covariance block for "
+               << original_parameter_block1 << " " << original_parameter_block2;
+    return false;
+  }
+
   const double* parameter_block1 = original_parameter_block1;
   const double* parameter_block2 = original_parameter_block2;
   const bool transpose = parameter_block1 > parameter_block2;
-- 
2.43.0


From 093d74dc9a73269ed54a3d9d6d0d3c9f73951feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:38 +0000
Subject: [PATCH 28/45] fix: covariance computation fails when the Jacobian
 cannot be evaluated

---
 internal/ceres/covariance_impl.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index 4c2aa35..dfe36b6 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -555,7 +555,11 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingSuiteSparseQR() {
   }
 
   CRSMatrix jacobian;
-  problem_->Evaluate(evaluate_options_, nullptr, nullptr, nullptr, &jacobian);
+  if (!problem_->Evaluate(
+          evaluate_options_, nullptr, nullptr, nullptr, &jacobian)) {
+    LOG(ERROR) << "Evaluation of the Jacobian failed.";
+    return false;
+  }
   event_logger.AddEvent("Evaluate");
 
   // Construct a compressed column form of the Jacobian.
@@ -722,7 +726,11 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingDenseSVD() {
   }
 
   CRSMatrix jacobian;
-  problem_->Evaluate(evaluate_options_, nullptr, nullptr, nullptr, &jacobian);
+  if (!problem_->Evaluate(
+          evaluate_options_, nullptr, nullptr, nullptr, &jacobian)) {
+    LOG(ERROR) << "Evaluation of the Jacobian failed.";
+    return false;
+  }
   event_logger.AddEvent("Evaluate");
 
   Matrix dense_jacobian(jacobian.num_rows, jacobian.num_cols);
@@ -818,7 +826,11 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingEigenSparseQR() {
   }
 
   CRSMatrix jacobian;
-  problem_->Evaluate(evaluate_options_, nullptr, nullptr, nullptr, &jacobian);
+  if (!problem_->Evaluate(
+          evaluate_options_, nullptr, nullptr, nullptr, &jacobian)) {
+    LOG(ERROR) << "Evaluation of the Jacobian failed.";
+    return false;
+  }
   event_logger.AddEvent("Evaluate");
 
   using EigenSparseMatrix = Eigen::SparseMatrix<double, Eigen::ColMajor>;
-- 
2.43.0


From cfa7fab32036066847e2d220f532fd624da0489f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:38 +0000
Subject: [PATCH 29/45] fix: dense covariance of a Jacobian with fewer rows
 than columns

---
 internal/ceres/covariance_impl.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index dfe36b6..04eb7a2 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -733,7 +733,10 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingDenseSVD() {
   }
   event_logger.AddEvent("Evaluate");
 
-  Matrix dense_jacobian(jacobian.num_rows, jacobian.num_cols);
+  // There must be as many singular values as there are columns, those of the
+  // null space of a Jacobian with fewer rows than columns being zero.
+  Matrix dense_jacobian(std::max(jacobian.num_rows, jacobian.num_cols),
+                        jacobian.num_cols);
   dense_jacobian.setZero();
   for (int r = 0; r < jacobian.num_rows; ++r) {
     for (int idx = jacobian.rows[r]; idx < jacobian.rows[r + 1]; ++idx) {
-- 
2.43.0


From 4461ca02279f2d627e4c741305848bbc6c5c4783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:38 +0000
Subject: [PATCH 30/45] fix: dense covariance of an all zero Jacobian

---
 internal/ceres/covariance_impl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index 04eb7a2..e939713 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -776,7 +776,8 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingDenseSVD() {
   // instead of a regular inverse.
   for (int i = 0; i < max_rank; ++i) {
     const double singular_value_ratio = singular_values[i] / max_singular_value;
-    if (singular_value_ratio < min_singular_value_ratio) {
+    // The ratio is NaN if all the singular values are zero.
+    if (!(singular_value_ratio >= min_singular_value_ratio)) {
       // Since the singular values are in decreasing order, if
       // automatic truncation is enabled, then from this point on
       // all values will fail the ratio test and there is nothing to
-- 
2.43.0


From 5e3bbc6e3ae3e897db433eae50a7a048af86c7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:38 +0000
Subject: [PATCH 31/45] fix: covariance matrix of an empty list of parameter
 blocks

---
 internal/ceres/covariance_impl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index e939713..72f1897 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -295,6 +295,10 @@ bool CovarianceImpl::GetCovarianceMatrixInTangentOrAmbientSpace(
       << "Covariance::GetCovarianceMatrix called when Covariance::Compute "
       << "returned false.";
 
+  if (parameters.empty()) {
+    return true;
+  }
+
   const ProblemImpl::ParameterMap& parameter_map = problem_->parameter_map();
   // For OpenMP compatibility we need to define these vectors in advance
   const int num_parameters = parameters.size();
-- 
2.43.0


From f5cdd73e990814191f9be544f36f3fcb37355913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 32/45] fix: threads assembling the covariance matrix wrote a
 plain flag

---
 internal/ceres/covariance_impl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index 72f1897..b47bd6a 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -31,6 +31,7 @@
 #include "ceres/covariance_impl.h"
 
 #include <algorithm>
+#include <atomic>
 #include <cstdlib>
 #include <memory>
 #include <numeric>
@@ -329,7 +330,7 @@ bool CovarianceImpl::GetCovarianceMatrixInTangentOrAmbientSpace(
   auto workspace = std::make_unique<double[]>(
       num_threads * max_covariance_block_size * max_covariance_block_size);
 
-  bool success = true;
+  std::atomic<bool> success = true;
 
   // Technically the following code is a double nested loop where
   // i = 1:n, j = i:n.
-- 
2.43.0


From d199ea6c7e9d89c2502998edc965bf7f4cb39811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:59 +0000
Subject: [PATCH 33/45] fix: switch to JACOBI from SCHUR_POWER_SERIES_EXPANSION
 when there are no E blocks

---
 internal/ceres/preconditioner.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ceres/preconditioner.cc b/internal/ceres/preconditioner.cc
index 7c51976..ed3cd8b 100644
--- a/internal/ceres/preconditioner.cc
+++ b/internal/ceres/preconditioner.cc
@@ -39,6 +39,7 @@ Preconditioner::~Preconditioner() = default;
 PreconditionerType Preconditioner::PreconditionerForZeroEBlocks(
     PreconditionerType preconditioner_type) {
   if (preconditioner_type == SCHUR_JACOBI ||
+      preconditioner_type == SCHUR_POWER_SERIES_EXPANSION ||
       preconditioner_type == CLUSTER_JACOBI ||
       preconditioner_type == CLUSTER_TRIDIAGONAL) {
     return JACOBI;
-- 
2.43.0


From 02ad9251da7c862a43e9bc337c1d87fe07e2c7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:22 +0000
Subject: [PATCH 34/45] fix: recognise views with an invalid weight in
 CanonicalViewsClustering

---
 internal/ceres/canonical_views_clustering.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/canonical_views_clustering.cc b/internal/ceres/canonical_views_clustering.cc
index a41e5f8..f208c4b 100644
--- a/internal/ceres/canonical_views_clustering.cc
+++ b/internal/ceres/canonical_views_clustering.cc
@@ -31,6 +31,7 @@
 
 #include "ceres/canonical_views_clustering.h"
 
+#include <cmath>
 #include <vector>
 
 #include "absl/container/flat_hash_map.h"
@@ -141,7 +142,8 @@ void CanonicalViewsClustering::ComputeClustering(
 void CanonicalViewsClustering::FindValidViews(IntSet* valid_views) const {
   const IntSet& views = graph_->vertices();
   for (const auto& view : views) {
-    if (graph_->VertexWeight(view) != WeightedGraph<int>::InvalidWeight()) {
+    // InvalidWeight() is a NaN, which compares unequal to everything.
+    if (!std::isnan(graph_->VertexWeight(view))) {
       valid_views->insert(view);
     }
   }
-- 
2.43.0


From d12794d8e1cca991a439a4da3c539fc8d32caa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:22 +0000
Subject: [PATCH 35/45] fix: reject inner iteration orderings with pointers
 which are not in the problem

---
 internal/ceres/coordinate_descent_minimizer.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/ceres/coordinate_descent_minimizer.cc b/internal/ceres/coordinate_descent_minimizer.cc
index 556d3aa..f09dd8d 100644
--- a/internal/ceres/coordinate_descent_minimizer.cc
+++ b/internal/ceres/coordinate_descent_minimizer.cc
@@ -247,6 +247,24 @@ bool CoordinateDescentMinimizer::IsOrderingValid(
   const std::map<int, std::set<double*>>& group_to_elements =
       ordering.group_to_elements();
 
+  // Verify that the ordering only contains parameter blocks of the problem.
+  std::set<double*> program_parameter_blocks;
+  for (ParameterBlock* parameter_block : program.parameter_blocks()) {
+    program_parameter_blocks.insert(parameter_block->mutable_user_state());
+  }
+  for (const auto& g_t_e : group_to_elements) {
+    for (double* element : g_t_e.second) {
+      if (program_parameter_blocks.count(element) == 0) {
+        *message = absl::StrFormat(
+            "The user-provided parameter_blocks_for_inner_iterations contains "
+            "a pointer to a double that is not a parameter block in the "
+            "problem. Group Id: %d",
+            g_t_e.first);
+        return false;
+      }
+    }
+  }
+
   // Verify that each group is an independent set
   for (const auto& g_t_e : group_to_elements) {
     if (!program.IsParameterBlockSetIndependent(g_t_e.second)) {
-- 
2.43.0


From c4e9bb9ee68b14b13959ce731441a08f708644b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:22 +0000
Subject: [PATCH 36/45] fix: report an ordering that lacks a block of the
 problem instead of crashing

---
 internal/ceres/reorder_program.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/ceres/reorder_program.cc b/internal/ceres/reorder_program.cc
index e02af43..d8a8acb 100644
--- a/internal/ceres/reorder_program.cc
+++ b/internal/ceres/reorder_program.cc
@@ -490,6 +490,17 @@ bool ReorderProgramForSchurTypeLinearSolver(
     // parameter block ordering as it sees fit. For Schur type solvers,
     // this means that the user wishes for Ceres to identify the
     // e_blocks, which we do by computing a maximal independent set.
+    //
+    // The ordering must contain exactly the blocks of the program.
+    for (const ParameterBlock* parameter_block : program->parameter_blocks()) {
+      if (!parameter_block_ordering->IsMember(
+              const_cast<double*>(parameter_block->user_state()))) {
+        *error = absl::StrFormat("No ordering specified for parameter block: %d",
+                                 parameter_block->index());
+        return false;
+      }
+    }
+
     std::vector<ParameterBlock*> schur_ordering;
     const int size_of_first_elimination_group =
         ComputeStableSchurOrdering(*program, &schur_ordering);
-- 
2.43.0


From 66871b549dedc36266d64f376add3a3edab195ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:22 +0000
Subject: [PATCH 37/45] fix: do not crash on an empty linear_solver_ordering

---
 internal/ceres/trust_region_preprocessor.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/ceres/trust_region_preprocessor.cc b/internal/ceres/trust_region_preprocessor.cc
index 9d7a37d..b2edf26 100644
--- a/internal/ceres/trust_region_preprocessor.cc
+++ b/internal/ceres/trust_region_preprocessor.cc
@@ -181,12 +181,21 @@ bool SetupLinearSolver(PreprocessedProblem* pp) {
     // If the first elimination group is empty, then we cannot use the
     // user's requested linear solver (and a preconditioner as the
     // case may be) so we must use a different one.
+    //
+    // The ordering may be empty here, either because the user gave an empty one
+    // or because none of the blocks in it is left. Since the reduced problem is
+    // not empty, this is reported as an error by ReorderProgram if the linear
+    // solver uses the ordering.
     ParameterBlockOrdering* ordering = options.linear_solver_ordering.get();
-    const int min_group_id = ordering->MinNonZeroGroup();
-    ordering->Remove(pp->removed_parameter_blocks);
-    if (IsSchurType(options.linear_solver_type) &&
-        min_group_id != ordering->MinNonZeroGroup()) {
-      AlternateLinearSolverAndPreconditionerForSchurTypeLinearSolver(&options);
+    if (ordering->NumGroups() > 0) {
+      const int min_group_id = ordering->MinNonZeroGroup();
+      ordering->Remove(pp->removed_parameter_blocks);
+      if (IsSchurType(options.linear_solver_type) &&
+          ordering->NumGroups() > 0 &&
+          min_group_id != ordering->MinNonZeroGroup()) {
+        AlternateLinearSolverAndPreconditionerForSchurTypeLinearSolver(
+            &options);
+      }
     }
   }
 
-- 
2.43.0


From 70ac1b0ee80df60b32321d54415ff6f6924d0a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:22 +0000
Subject: [PATCH 38/45] fix: leave the orderings given by the user unmodified

---
 internal/ceres/trust_region_preprocessor.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/ceres/trust_region_preprocessor.cc b/internal/ceres/trust_region_preprocessor.cc
index b2edf26..12516fb 100644
--- a/internal/ceres/trust_region_preprocessor.cc
+++ b/internal/ceres/trust_region_preprocessor.cc
@@ -390,6 +390,18 @@ bool TrustRegionPreprocessor::Preprocess(const Solver::Options& options,
   EventLogger event_logger("TrustRegionPreprocessor::Preprocess");
   CHECK(pp != nullptr);
   pp->options = options;
+  // The orderings are modified below. Work on copies, so that the ones which
+  // belong to the user can be used again.
+  if (options.linear_solver_ordering != nullptr) {
+    pp->options.linear_solver_ordering =
+        std::make_shared<ParameterBlockOrdering>(
+            *options.linear_solver_ordering);
+  }
+  if (options.inner_iteration_ordering != nullptr) {
+    pp->options.inner_iteration_ordering =
+        std::make_shared<ParameterBlockOrdering>(
+            *options.inner_iteration_ordering);
+  }
   ChangeNumThreadsIfNeeded(&pp->options);
 
   pp->problem = problem;
-- 
2.43.0


From 2a62e7fe50f144a4393ca2e2b0d11c04efa19ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:30 +0000
Subject: [PATCH 39/45] fix: refuse min_lm_diagonal = 0 instead of crashing

---
 internal/ceres/solver.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/solver.cc b/internal/ceres/solver.cc
index 97c1d87..6eff8d8 100644
--- a/internal/ceres/solver.cc
+++ b/internal/ceres/solver.cc
@@ -411,8 +411,8 @@ bool TrustRegionOptionsAreValid(const Solver::Options& options,
   OPTION_LE_OPTION(min_trust_region_radius, initial_trust_region_radius);
   OPTION_LE_OPTION(initial_trust_region_radius, max_trust_region_radius);
   OPTION_GE(min_relative_decrease, 0.0);
-  OPTION_GE(min_lm_diagonal, 0.0);
-  OPTION_GE(max_lm_diagonal, 0.0);
+  OPTION_GT(min_lm_diagonal, 0.0);
+  OPTION_GT(max_lm_diagonal, 0.0);
   OPTION_LE_OPTION(min_lm_diagonal, max_lm_diagonal);
   OPTION_GE(max_num_consecutive_invalid_steps, 0);
   OPTION_GT(eta, 0.0);
-- 
2.43.0


From 995a658bf1a316307a58e67f02c26ca8e18632a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:30 +0000
Subject: [PATCH 40/45] fix: do not ask for page locked memory without CUDA

---
 internal/ceres/block_jacobian_writer.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/block_jacobian_writer.cc b/internal/ceres/block_jacobian_writer.cc
index 34cdc1b..286898e 100644
--- a/internal/ceres/block_jacobian_writer.cc
+++ b/internal/ceres/block_jacobian_writer.cc
@@ -38,6 +38,7 @@
 #include "absl/log/log.h"
 #include "ceres/block_evaluate_preparer.h"
 #include "ceres/block_sparse_matrix.h"
+#include "ceres/internal/config.h"
 #include "ceres/internal/eigen.h"
 #include "ceres/internal/export.h"
 #include "ceres/parameter_block.h"
@@ -258,8 +259,16 @@ std::unique_ptr<SparseMatrix> BlockJacobianWriter::CreateJacobian() const {
     std::sort(row->cells.begin(), row->cells.end(), CellLessThan);
   }
 
-  return std::make_unique<BlockSparseMatrix>(
-      bs, options_.sparse_linear_algebra_library_type == CUDA_SPARSE);
+  // Page locked memory is only available, and of use, if there is CUDA support.
+  // CUDA_SPARSE may be set without it if the linear solver does not use the
+  // sparse linear algebra library.
+#ifndef CERES_NO_CUDA
+  const bool use_page_locked_memory =
+      options_.sparse_linear_algebra_library_type == CUDA_SPARSE;
+#else
+  constexpr bool use_page_locked_memory = false;
+#endif
+  return std::make_unique<BlockSparseMatrix>(bs, use_page_locked_memory);
 }
 
 }  // namespace ceres::internal
-- 
2.43.0


From 3780a5b289e6c86d5a9736b816a38a41f18b7ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:30 +0000
Subject: [PATCH 41/45] fix: switch from ITERATIVE_SCHUR to CGNR without CUDA

---
 internal/ceres/trust_region_preprocessor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ceres/trust_region_preprocessor.cc b/internal/ceres/trust_region_preprocessor.cc
index 12516fb..52a8fa9 100644
--- a/internal/ceres/trust_region_preprocessor.cc
+++ b/internal/ceres/trust_region_preprocessor.cc
@@ -93,6 +93,12 @@ void AlternateLinearSolverAndPreconditionerForSchurTypeLinearSolver(
     options->preconditioner_type =
         Preconditioner::PreconditionerForZeroEBlocks(preconditioner_type_given);
 
+    // Unlike ITERATIVE_SCHUR, CGNR runs on the GPU if asked for CUDA_SPARSE.
+    if (options->sparse_linear_algebra_library_type == CUDA_SPARSE &&
+        !IsSparseLinearAlgebraLibraryTypeAvailable(CUDA_SPARSE)) {
+      options->sparse_linear_algebra_library_type = NO_SPARSE;
+    }
+
     message = absl::StrFormat(
         "No E blocks. Switching from %s(%s) to %s(%s).",
         LinearSolverTypeToString(linear_solver_type_given),
-- 
2.43.0


From cc74f7f644805cba53e0289e40225d8bba823082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:31 +0000
Subject: [PATCH 42/45] fix: call the evaluation callback when gradients are
 checked

---
 internal/ceres/gradient_checking_cost_function.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/ceres/gradient_checking_cost_function.cc b/internal/ceres/gradient_checking_cost_function.cc
index 3d206cc..51ada84 100644
--- a/internal/ceres/gradient_checking_cost_function.cc
+++ b/internal/ceres/gradient_checking_cost_function.cc
@@ -186,6 +186,8 @@ std::unique_ptr<ProblemImpl> CreateGradientCheckingProblemImpl(
       DO_NOT_TAKE_OWNERSHIP;
   gradient_checking_problem_options.manifold_ownership = DO_NOT_TAKE_OWNERSHIP;
   gradient_checking_problem_options.context = problem_impl->context();
+  gradient_checking_problem_options.evaluation_callback =
+      problem_impl->mutable_program()->mutable_evaluation_callback();
 
   NumericDiffOptions numeric_diff_options;
   numeric_diff_options.relative_step_size = relative_step_size;
-- 
2.43.0


From 7052492b0bc4503a8e5e76470f0e08122f988541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:55 +0000
Subject: [PATCH 43/45] fix: do not overflow when partitioning a range with
 large costs

MaxPartitionCostIsFeasible added the cost offset of a partition to the
largest cost it may have. For cumulative costs near the largest int the sum
overflows, which makes a feasible partition cost look infeasible.
---
 internal/ceres/partition_range_for_parallel_for.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/ceres/partition_range_for_parallel_for.h b/internal/ceres/partition_range_for_parallel_for.h
index 309d7a8..8484b43 100644
--- a/internal/ceres/partition_range_for_parallel_for.h
+++ b/internal/ceres/partition_range_for_parallel_for.h
@@ -63,13 +63,16 @@ bool MaxPartitionCostIsFeasible(int start,
     if (partition->size() > max_num_partitions) {
       return false;
     }
-    const int target = max_partition_cost + cost_offset;
     const int partition_end =
         std::partition_point(
             cumulative_cost_data + partition_start,
             cumulative_cost_data + end,
-            [&cumulative_cost_fun, target](const CumulativeCostData& item) {
-              return cumulative_cost_fun(item) <= target;
+            [&cumulative_cost_fun, cost_offset, max_partition_cost](
+                const CumulativeCostData& item) {
+              // The difference, unlike max_partition_cost + cost_offset, can
+              // not overflow.
+              return cumulative_cost_fun(item) - cost_offset <=
+                     max_partition_cost;
             }) -
         cumulative_cost_data;
     // Unable to make a partition from a single element
-- 
2.43.0


From 5a193130c061e1f585b20fec8448cca076d66a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:58 +0000
Subject: [PATCH 44/45] fix: do not read past the end of the covariance matrix

GetCovarianceBlock looked at the column index before checking that it is
inside the row, so asking for a block that was not computed could read past
the end of the array of columns.
---
 internal/ceres/covariance_impl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index b47bd6a..fc41b92 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -194,7 +194,7 @@ bool CovarianceImpl::GetCovarianceBlockInTangentOrAmbientSpace(
   // vector to determine where the set of columns corresponding to the
   // covariance block begin.
   int offset = 0;
-  while (cols_begin[offset] != col_begin && offset < row_size) {
+  while (offset < row_size && cols_begin[offset] != col_begin) {
     ++offset;
   }
 
-- 
2.43.0


From 4973cf20ad26ee120d61c953271e8556b36fc831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:53 +0000
Subject: [PATCH 45/45] fix: order inner iterations independently of memory
 addresses

---
 internal/ceres/parameter_block_ordering.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/parameter_block_ordering.cc b/internal/ceres/parameter_block_ordering.cc
index 6db8a60..0c6f3d3 100644
--- a/internal/ceres/parameter_block_ordering.cc
+++ b/internal/ceres/parameter_block_ordering.cc
@@ -109,9 +109,17 @@ void ComputeRecursiveIndependentSetOrdering(const Program& program,
   int num_covered = 0;
   int round = 0;
   while (num_covered < parameter_blocks.size()) {
+    // Break ties between vertices of the same degree using their order in the
+    // program. Otherwise the result depends on the addresses of the blocks.
+    const auto& vertices = graph->vertices();
     std::vector<ParameterBlock*> independent_set_ordering;
+    for (auto* parameter_block : parameter_blocks) {
+      if (vertices.count(parameter_block) > 0) {
+        independent_set_ordering.push_back(parameter_block);
+      }
+    }
     const int independent_set_size =
-        IndependentSetOrdering(*graph, &independent_set_ordering);
+        StableIndependentSetOrdering(*graph, &independent_set_ordering);
     for (int i = 0; i < independent_set_size; ++i) {
       ParameterBlock* parameter_block = independent_set_ordering[i];
       ordering->AddElementToGroup(parameter_block->mutable_user_state(), round);
-- 
2.43.0

