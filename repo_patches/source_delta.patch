From 1b5a6a50892702664f35e75e25c616b9faff3d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:32 +0000
Subject: [PATCH 01/24] fix: projectPoint handles points behind the camera like
 the array overload

The guard compared z itself, not its magnitude, with the division threshold,
so every point with negative z was returned undivided.
---
 .../include/rct_optimizations/ceres_math_utilities.h           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h b/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
index 4b079ec..d201d05 100644
--- a/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
+++ b/rct_optimizations/include/rct_optimizations/ceres_math_utilities.h
@@ -69,7 +69,8 @@ inline Eigen::Matrix<T, 2, 1> projectPoint(const rct_optimizations::CameraIntrin
   scaled_point(2) = T(1.0);
 
   // Avoid divide by zero
-  if (std::abs(point.z() - T(0.0) > T(1.e-10)))
+  using std::abs;
+  if (abs(point.z() - T(0.0)) > T(1.e-10))
   {
     scaled_point.x() = point.x() / point.z();
     scaled_point.y() = point.y() / point.z();
-- 
2.43.0


From a2bc0ec9cd56d2a110a107e3d018e2a2d1f82a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:29 +0000
Subject: [PATCH 02/24] fix: PnP residuals have finite derivatives at an
 identity rotation guess

---
 .../src/rct_optimizations/pnp.cpp             | 26 +++++++------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/pnp.cpp b/rct_optimizations/src/rct_optimizations/pnp.cpp
index db20503..469b842 100644
--- a/rct_optimizations/src/rct_optimizations/pnp.cpp
+++ b/rct_optimizations/src/rct_optimizations/pnp.cpp
@@ -20,18 +20,15 @@ public:
                   const T* const cam_to_tgt_translation_ptr,
                   T* const residual) const
   {
-    using Isometry3 = Eigen::Transform<T, 3, Eigen::Isometry>;
     using Vector3 = Eigen::Matrix<T, 3, 1>;
     using Vector2 = Eigen::Matrix<T, 2, 1>;
 
-    Eigen::Map<const Vector3> cam_to_tgt_angle_axis(cam_to_tgt_angle_axis_ptr);
-    Eigen::Map<const Vector3> cam_to_tgt_translation(cam_to_tgt_translation_ptr);
-    Isometry3 camera_to_target = Isometry3::Identity();
-    camera_to_target = Eigen::Translation<T, 3>(cam_to_tgt_translation) *
-                       Eigen::AngleAxis<T>(cam_to_tgt_angle_axis.norm(), cam_to_tgt_angle_axis.normalized());
-
     // Transform points into camera coordinates
-    Vector3 camera_pt = camera_to_target * in_target_.cast<T>();
+    // Note: the derivatives of an angle-axis built from the norm of the vector are not defined for the identity rotation
+    const Vector3 target_pt = in_target_.cast<T>();
+    Vector3 camera_pt;
+    rct_optimizations::transformPoint(
+        cam_to_tgt_angle_axis_ptr, cam_to_tgt_translation_ptr, target_pt.data(), camera_pt.data());
 
     Vector2 xy_image = projectPoint(intr_, camera_pt);
 
@@ -59,17 +56,14 @@ public:
                   const T* const cam_to_tgt_translation_ptr,
                   T* const residual) const
   {
-    using Isometry3 = Eigen::Transform<T, 3, Eigen::Isometry>;
     using Vector3 = Eigen::Matrix<T, 3, 1>;
 
-    Eigen::Map<const Vector3> cam_to_tgt_angle_axis(cam_to_tgt_angle_axis_ptr);
-    Eigen::Map<const Vector3> cam_to_tgt_translation(cam_to_tgt_translation_ptr);
-    Isometry3 camera_to_target = Isometry3::Identity();
-    camera_to_target = Eigen::Translation<T, 3>(cam_to_tgt_translation) *
-                       Eigen::AngleAxis<T>(cam_to_tgt_angle_axis.norm(), cam_to_tgt_angle_axis.normalized());
-
     // Transform points into camera coordinates
-    Vector3 camera_pt = camera_to_target * in_target_.cast<T>();
+    // Note: the derivatives of an angle-axis built from the norm of the vector are not defined for the identity rotation
+    const Vector3 target_pt = in_target_.cast<T>();
+    Vector3 camera_pt;
+    rct_optimizations::transformPoint(
+        cam_to_tgt_angle_axis_ptr, cam_to_tgt_translation_ptr, target_pt.data(), camera_pt.data());
 
     residual[0] = camera_pt[0] - in_image_.x();
     residual[1] = camera_pt[1] - in_image_.y();
-- 
2.43.0


From 2fe90cb06c5d9c808129d3914c72d4e358666f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:11 +0000
Subject: [PATCH 03/24] fix: intrinsic calibration covariance covers only
 initialized poses and target poses are returned

---
 .../src/rct_optimizations/camera_intrinsic.cpp              | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
index c458bad..af78e67 100644
--- a/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
+++ b/rct_optimizations/src/rct_optimizations/camera_intrinsic.cpp
@@ -235,7 +235,8 @@ rct_optimizations::optimize(const rct_optimizations::IntrinsicEstimationProblem&
   param_labels[internal_intrinsics_data.data()] =
       std::vector<std::string>(params.labels_intrinsic_params.begin(), params.labels_intrinsic_params.end());
 
-  for (std::size_t i = 0; i < internal_poses.size(); i++)
+  // Only the poses which could be initialized are part of the problem
+  for (std::size_t i : valid_idx)
   {
     param_blocks.emplace_back(internal_poses[i].values.data());
     std::vector<std::string> labels;
@@ -268,6 +269,9 @@ rct_optimizations::optimize(const rct_optimizations::IntrinsicEstimationProblem&
   result.distortions[3] = internal_intrinsics_data[7];
   result.distortions[4] = internal_intrinsics_data[8];
 
+  for (const Pose6d& pose : internal_poses)
+    result.target_transforms.push_back(poseCalToEigen(pose));
+
   result.initial_cost_per_obs = summary.initial_cost / summary.num_residuals;
   result.final_cost_per_obs = summary.final_cost / summary.num_residuals;
 
-- 
2.43.0


From 6a9aefc5ac0cd50171cc91021e1de11bb8f4576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:26 +0000
Subject: [PATCH 04/24] fix: default pose labels follow the order of the pose
 parameters (rotation first)

---
 .../include/rct_optimizations/experimental/camera_intrinsic.h | 2 +-
 .../include/rct_optimizations/extrinsic_hand_eye.h            | 4 ++--
 .../include/rct_optimizations/extrinsic_multi_static_camera.h | 2 +-
 .../rct_optimizations/extrinsic_multi_static_camera_only.h    | 2 +-
 .../extrinsic_multi_static_camera_wrist_only.h                | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h b/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
index c15c0ab..7444477 100644
--- a/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
+++ b/rct_optimizations/include/rct_optimizations/experimental/camera_intrinsic.h
@@ -18,7 +18,7 @@ struct IntrinsicEstimationProblem
   const std::array<std::string, 9> labels_intrinsic_params = {
     { "fx", "fy", "cx", "cy", "k1", "k2", "p1", "p2", "k3" }
   };
-  const std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  const std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 };
 
 struct IntrinsicEstimationResult
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h b/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h
index 2b082f3..5321f67 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_hand_eye.h
@@ -30,7 +30,7 @@ struct ExtrinsicHandEyeProblem2D3D
   Eigen::Isometry3d target_mount_to_target_guess;
   Eigen::Isometry3d camera_mount_to_camera_guess;
 
-  std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
   std::string label_target_mount_to_target = "target_mount_to_target";
   std::string label_camera_mount_to_camera = "camera_mount_to_camera";
 
@@ -48,7 +48,7 @@ struct ExtrinsicHandEyeProblem3D3D
   Eigen::Isometry3d target_mount_to_target_guess;
   Eigen::Isometry3d camera_mount_to_camera_guess;
 
-  std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
   std::string label_target_mount_to_target = "target_mount_to_target";
   std::string label_camera_mount_to_camera = "camera_mount_to_camera";
 
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h
index d6d54ae..932830b 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera.h
@@ -47,7 +47,7 @@ struct ExtrinsicMultiStaticCameraMovingTargetProblem
   /** @brief Your best guess at the "base frame" to "camera frame" transform; one for each camera */
   std::vector<Eigen::Isometry3d> base_to_camera_guess;
 
-  const std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  const std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 
   std::string label_wrist_to_target = "wrist_to_target";
 
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_only.h b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_only.h
index b369a08..f94922d 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_only.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_only.h
@@ -49,7 +49,7 @@ struct ExtrinsicMultiStaticCameraOnlyProblem
   /** @brief Your best guess at the "base frame" to "camera frame" transform; one for each camera */
   std::vector<Eigen::Isometry3d> base_to_camera_guess;
 
-  std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 
   std::string label_base_to_target = "base_to_target";
 
diff --git a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_wrist_only.h b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_wrist_only.h
index 8b9de11..00c0ebd 100644
--- a/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_wrist_only.h
+++ b/rct_optimizations/include/rct_optimizations/extrinsic_multi_static_camera_wrist_only.h
@@ -50,7 +50,7 @@ struct ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem
    */
   std::vector<Eigen::Isometry3d> base_to_camera_guess;
 
-  const std::array<std::string, 6> labels_isometry3d = { { "x", "y", "z", "rx", "ry", "rz" } };
+  const std::array<std::string, 6> labels_isometry3d = { { "rx", "ry", "rz", "x", "y", "z" } };
 
   std::string label_wrist_to_target = "wrist_to_target";
 
-- 
2.43.0


From 1934b0e311cea690aa37013bac4f66470130ebcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:49 +0000
Subject: [PATCH 05/24] fix: standard deviation of a parameter without variance
 is zero, not one

---
 .../src/rct_optimizations/covariance_analysis.cpp              | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
index da77aa2..1b09db4 100644
--- a/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
+++ b/rct_optimizations/src/rct_optimizations/covariance_analysis.cpp
@@ -14,10 +14,9 @@ Eigen::MatrixXd computeCorrelationsFromCovariance(const Eigen::MatrixXd& covaria
 
   for (Eigen::Index i = 0; i < num_vars; i++)
   {
-    double sigma_i = sqrt(fabs(covariance_matrix(i, i)));  // standard deviation at the diagonal element in row i
-
     for (Eigen::Index j = 0; j < num_vars; j++)
     {
+      double sigma_i = sqrt(fabs(covariance_matrix(i, i)));  // standard deviation at the diagonal element in row i
       double sigma_j = sqrt(fabs(covariance_matrix(j, j)));  // standard deviation at the diagonal element in column j
 
       if (i == j)  // if out(i,j) is a diagonal element
-- 
2.43.0


From d494870d13b45e009b49bc262456d23bc6d9a6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:48 +0000
Subject: [PATCH 06/24] fix: maximum likelihood rejects means and deviations of
 different shape

---
 .../include/rct_optimizations/maximum_likelihood.h              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_optimizations/include/rct_optimizations/maximum_likelihood.h b/rct_optimizations/include/rct_optimizations/maximum_likelihood.h
index 1a26a60..d50591c 100644
--- a/rct_optimizations/include/rct_optimizations/maximum_likelihood.h
+++ b/rct_optimizations/include/rct_optimizations/maximum_likelihood.h
@@ -19,7 +19,7 @@ class MaximumLikelihood
 public:
   MaximumLikelihood(const Eigen::ArrayXXd& mean_, const Eigen::ArrayXXd& stdev_) : mean(mean_), stdev(stdev_)
   {
-    if (mean.size() != stdev.size())
+    if (mean.rows() != stdev.rows() || mean.cols() != stdev.cols())
       throw OptimizationException("Mean and standard deviation matrix are not the same size");
   }
 
-- 
2.43.0


From ec4b5e12e73f49320b94fb0238043a2117ff0ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:12 +0000
Subject: [PATCH 07/24] fix: a DH chain built with parameter offsets keeps
 joint names, limits and seeds

---
 rct_optimizations/src/rct_optimizations/dh_chain.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/src/rct_optimizations/dh_chain.cpp b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
index 0631059..06c7a90 100644
--- a/rct_optimizations/src/rct_optimizations/dh_chain.cpp
+++ b/rct_optimizations/src/rct_optimizations/dh_chain.cpp
@@ -56,8 +56,9 @@ DHChain::DHChain(const DHChain& other, const Eigen::MatrixX4d& dh_offsets)
   transforms_.reserve(other.transforms_.size());
   for (std::size_t i = 0; i < other.transforms_.size(); ++i)
   {
-    const DHTransform& transform = other.transforms_.at(i);
-    transforms_.emplace_back(transform.params + dh_offsets.row(i).transpose(), transform.type);
+    // Copy the transform so that its name, limits and seed are kept
+    transforms_.push_back(other.transforms_.at(i));
+    transforms_.back().params += dh_offsets.row(i).transpose();
   }
 
   base_offset_ = other.base_offset_;
-- 
2.43.0


From 8cfb4fc9e20bbaa4fca7d50da19861b107c9fde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 08/24] fix: kinematic observations compare their
 correspondences and joint vectors of different size

---
 rct_optimizations/include/rct_optimizations/types.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/types.h b/rct_optimizations/include/rct_optimizations/types.h
index dcb82f4..e067bec 100644
--- a/rct_optimizations/include/rct_optimizations/types.h
+++ b/rct_optimizations/include/rct_optimizations/types.h
@@ -145,8 +145,10 @@ struct KinematicObservation
 
   inline bool operator==(const KinematicObservation& rhs) const
   {
-    return camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
-           target_chain_joints.isApprox(rhs.target_chain_joints) && correspondence_set == correspondence_set;
+    return camera_chain_joints.size() == rhs.camera_chain_joints.size() &&
+           target_chain_joints.size() == rhs.target_chain_joints.size() &&
+           camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
+           target_chain_joints.isApprox(rhs.target_chain_joints) && correspondence_set == rhs.correspondence_set;
   }
 
   /** @brief A set of feature correspondences between the sensor output and target */
@@ -178,8 +180,10 @@ struct KinematicMeasurement
 
   inline bool operator==(const KinematicMeasurement& rhs) const
   {
-    return camera_to_target.isApprox(rhs.camera_to_target) && camera_chain_joints.isApprox(rhs.camera_chain_joints) &&
-           target_chain_joints.isApprox(rhs.target_chain_joints);
+    return camera_to_target.isApprox(rhs.camera_to_target) &&
+           camera_chain_joints.size() == rhs.camera_chain_joints.size() &&
+           target_chain_joints.size() == rhs.target_chain_joints.size() &&
+           camera_chain_joints.isApprox(rhs.camera_chain_joints) && target_chain_joints.isApprox(rhs.target_chain_joints);
   }
 
   /** @brief A measurement of the full 6-DoF target pose as observed by the camera */
-- 
2.43.0


From b37eebcd277db5e77ab2be959435092b3fd8c6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 09/24] fix: homography error of 3D correspondences is a
 distance whatever the sign of the depth

---
 .../src/rct_optimizations/validation/homography_validation.cpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
index df0d710..1903d39 100644
--- a/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/homography_validation.cpp
@@ -205,7 +205,7 @@ Eigen::VectorXd calculateHomographyError(const Correspondence3D3D::Set& correspo
   Eigen::VectorXd error = calculateHomographyError(correspondences_2d, correspondence_sampler);
 
   // Scale the errors again by the z values of the original correspondences
-  return error.cwiseProduct(z_values);
+  return error.cwiseProduct(z_values.cwiseAbs());
 }
 
 }  // namespace rct_optimizations
-- 
2.43.0


From fc0230efa1d27b93848a66d6a688e80b648969ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:49 +0000
Subject: [PATCH 10/24] fix: intrinsic accuracy of an empty observation set no
 longer reads out of bounds

---
 .../validation/camera_intrinsic_calibration_validation.cpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp b/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp
index 6a8f3ed..1bfcde7 100644
--- a/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp
+++ b/rct_optimizations/src/rct_optimizations/validation/camera_intrinsic_calibration_validation.cpp
@@ -66,7 +66,7 @@ measureIntrinsicCalibrationAccuracy(const Observation2D3D::Set& observations,
 {
   // Check that the observations are all the same size
   // Assuming that each observation's correspondences are ordered the same
-  for (std::size_t i = 0; i < observations.size() - 1; ++i)
+  for (std::size_t i = 0; i + 1 < observations.size(); ++i)
   {
     const Observation2D3D& obs_1 = observations[i];
     const Observation2D3D& obs_2 = observations[i + 1];
-- 
2.43.0


From 48f67dec4848205668e152899fce06f3c31693e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:24 +0000
Subject: [PATCH 11/24] fix: hand-eye result read from YAML applies roll, pitch
 and yaw to their own axes

---
 .../include/rct_optimizations/serialization/problems.h        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/serialization/problems.h b/rct_optimizations/include/rct_optimizations/serialization/problems.h
index 06656f5..d52ee2a 100644
--- a/rct_optimizations/include/rct_optimizations/serialization/problems.h
+++ b/rct_optimizations/include/rct_optimizations/serialization/problems.h
@@ -8,9 +8,9 @@ namespace
 template <typename FloatT>
 Eigen::Transform<FloatT, 3, Eigen::Isometry> toIsometry(const Eigen::Vector3d& trans, const Eigen::Vector3d& euler_zyx)
 {
-  return Eigen::Translation3d(trans) * Eigen::AngleAxisd(euler_zyx(2), Eigen::Vector3d::UnitZ()) *
+  return Eigen::Translation3d(trans) * Eigen::AngleAxisd(euler_zyx(0), Eigen::Vector3d::UnitZ()) *
          Eigen::AngleAxisd(euler_zyx(1), Eigen::Vector3d::UnitY()) *
-         Eigen::AngleAxisd(euler_zyx(0), Eigen::Vector3d::UnitX());
+         Eigen::AngleAxisd(euler_zyx(2), Eigen::Vector3d::UnitX());
 }
 }  // namespace
 
-- 
2.43.0


From faaeca600034562c89273b1480b44db3ae51beaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:33 +0000
Subject: [PATCH 12/24] fix: DH parameters missing from a YAML file are
 reported as an exception instead of aborting

---
 .../include/rct_optimizations/serialization/types.h          | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/rct_optimizations/include/rct_optimizations/serialization/types.h b/rct_optimizations/include/rct_optimizations/serialization/types.h
index 8ae11e0..dbd7d1d 100644
--- a/rct_optimizations/include/rct_optimizations/serialization/types.h
+++ b/rct_optimizations/include/rct_optimizations/serialization/types.h
@@ -113,10 +113,7 @@ struct convert<rct_optimizations::DHTransform>
       YAML::Node r = n["r"];
       YAML::Node alpha = n["alpha"];
 
-      Eigen::Vector4d params;
-      params << d.as<double>(), theta.as<double>(), r.as<double>(), alpha.as<double>();
-
-      val.params = params;
+      val.params = Eigen::Vector4d(d.as<double>(), theta.as<double>(), r.as<double>(), alpha.as<double>());
     }
 
     val.name = n["joint_name"].as<std::string>();
-- 
2.43.0


From f5a4e76ce9da70449b61f0802df0404f2086a4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:46 +0000
Subject: [PATCH 13/24] fix: DH chain whose dh_transforms is not a sequence is
 rejected instead of read as an empty chain

---
 .../include/rct_optimizations/serialization/types.h            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rct_optimizations/include/rct_optimizations/serialization/types.h b/rct_optimizations/include/rct_optimizations/serialization/types.h
index dbd7d1d..0504787 100644
--- a/rct_optimizations/include/rct_optimizations/serialization/types.h
+++ b/rct_optimizations/include/rct_optimizations/serialization/types.h
@@ -131,6 +131,9 @@ struct convert<rct_optimizations::DHChain>
     val.base_offset_ = n["base_transform"].as<Eigen::Isometry3d>();
 
     const YAML::Node& transforms = n["dh_transforms"];
+    if (!transforms.IsSequence())
+      return false;
+
     val.transforms_.clear();
     val.transforms_.reserve(transforms.size());
     for (std::size_t i = 0; i < transforms.size(); i++)
-- 
2.43.0


From d66aa4fd14fdac93eeb62b8bbc8ab2b7d0d5b0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 14/24] fix: circle grid features found in mirrored or
 transposed order are matched to their own target points

---
 .../modified_circle_grid_finder.cpp           | 25 +++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
index 5a163e6..ac10ddb 100644
--- a/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
+++ b/rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp
@@ -117,8 +117,8 @@ static std::vector<cv::Point2d> extractKeyPoints(const cv::Mat& image,
   std::size_t temp_cols = flipped ? rows : cols;
 
   std::size_t start_first_row = 0;
-  std::size_t end_first_row = cols - 1;
-  std::size_t start_last_row = rows * cols - cols;
+  std::size_t end_first_row = temp_cols - 1;
+  std::size_t start_last_row = rows * cols - temp_cols;
   std::size_t end_last_row = rows * cols - 1;
 
   // Determine size of corners relative to their adjacent circles
@@ -155,28 +155,28 @@ static std::vector<cv::Point2d> extractKeyPoints(const cv::Mat& image,
   // Comparing the start last row corner to the second point in the last row
   double start_last_row_rel_row_size = feature_sizes[start_last_row] / feature_sizes[start_last_row + 1];
   // Comparing the start last row corner to the start of the second to last row
-  double start_last_row_rel_col_size = feature_sizes[start_last_row] / feature_sizes[start_last_row - cols];
+  double start_last_row_rel_col_size = feature_sizes[start_last_row] / feature_sizes[start_last_row - temp_cols];
   // Find the average relative size of the start last row corner to its two adjacent circles
   start_last_row_avg_rel_size = (start_last_row_rel_row_size + start_last_row_rel_col_size) / 2.0;
 
   // Comparing the end last row corner to the second to last point in the last row
   double end_last_row_rel_row_size = feature_sizes[end_last_row] / feature_sizes[end_last_row - 1];
   // Comparing the end last row corner to the end of the second to last row
-  double end_last_row_rel_col_size = feature_sizes[end_last_row] / feature_sizes[end_last_row - cols];
+  double end_last_row_rel_col_size = feature_sizes[end_last_row] / feature_sizes[end_last_row - temp_cols];
   // Find the average relative size of the end last row corner to its two adjacent circles
   end_last_row_avg_rel_size = (end_last_row_rel_row_size + end_last_row_rel_col_size) / 2.0;
 
   // Comparing the start fisrt row corner to the second point in the first row
   double start_first_row_rel_row_size = feature_sizes[start_first_row] / feature_sizes[start_first_row + 1];
   // Comparing the start first row corner to the start of the second  row
-  double start_first_row_rel_col_size = feature_sizes[start_first_row] / feature_sizes[start_first_row + cols];
+  double start_first_row_rel_col_size = feature_sizes[start_first_row] / feature_sizes[start_first_row + temp_cols];
   // Find the average relative size of the start first row corner to its two adjacent circles
   start_first_row_avg_rel_size = (start_first_row_rel_row_size + start_first_row_rel_col_size) / 2.0;
 
   // Comparing the end first row corner to the second to last point in the first row
   double end_first_row_rel_row_size = feature_sizes[end_first_row] / feature_sizes[end_first_row - 1];
   // Comparing the end first row corner to the end of the second row
-  double end_first_row_rel_col_size = feature_sizes[end_first_row] / feature_sizes[end_first_row + cols];
+  double end_first_row_rel_col_size = feature_sizes[end_first_row] / feature_sizes[end_first_row + temp_cols];
   // Find the average relative size of the end first row corner to its two adjacent circles
   end_first_row_avg_rel_size = (end_first_row_rel_row_size + end_first_row_rel_col_size) / 2.0;
 
@@ -297,11 +297,11 @@ static std::vector<cv::Point2d> extractKeyPoints(const cv::Mat& image,
     }
     else  // unusual ordering
     {
-      for (std::size_t j = 0; j < temp_cols; j++)
+      for (std::size_t k = 0; k < temp_rows; k++)
       {
-        for (std::size_t k = 0; k < temp_rows; k++)
+        for (int j = static_cast<int>(temp_cols) - 1; j >= 0; j--)
         {
-          observation_points.push_back(feature_coordinates[k * temp_cols + j]);
+          observation_points.push_back(feature_coordinates[k * temp_cols + static_cast<std::size_t>(j)]);
         }
       }
     }
@@ -332,12 +332,11 @@ static std::vector<cv::Point2d> extractKeyPoints(const cv::Mat& image,
     }
     else  // unusual ordering
     {
-      for (int j = static_cast<int>(temp_cols) - 1; j >= 0; j--)
+      for (int k = static_cast<int>(temp_rows) - 1; k >= 0; k--)
       {
-        for (int k = static_cast<int>(temp_rows) - 1; k >= 0; k--)
+        for (std::size_t j = 0; j < temp_cols; j++)
         {
-          observation_points.push_back(
-              feature_coordinates[static_cast<std::size_t>(k) * temp_cols + static_cast<std::size_t>(j)]);
+          observation_points.push_back(feature_coordinates[static_cast<std::size_t>(k) * temp_cols + j]);
         }
       }
     }
-- 
2.43.0


From 810a5628543ffe4e512dcd1f83522f94b9611711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 15/24] fix: circle detector does not read pixels outside of
 the image

---
 rct_image_tools/src/rct_image_tools/circle_detector.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rct_image_tools/src/rct_image_tools/circle_detector.cpp b/rct_image_tools/src/rct_image_tools/circle_detector.cpp
index 44d3b39..d458bd5 100644
--- a/rct_image_tools/src/rct_image_tools/circle_detector.cpp
+++ b/rct_image_tools/src/rct_image_tools/circle_detector.cpp
@@ -167,7 +167,12 @@ DetectionResult findCircles(const cv::Mat& image,
     // Check that the color of the center pixel matches the expectation
     if (params.filterByColor)
     {
-      if (binarized_image.at<uchar>(cvRound(box.center.y), cvRound(box.center.x)) != params.circleColor)
+      // The center of an ellipse fitted to part of a circle at the border can lie outside of the image
+      const cv::Point center_px(cvRound(box.center.x), cvRound(box.center.y));
+      if (!cv::Rect(0, 0, binarized_image.cols, binarized_image.rows).contains(center_px))
+        continue;
+
+      if (binarized_image.at<uchar>(center_px) != params.circleColor)
         continue;
     }
 
-- 
2.43.0


From 43f453feb98975e71b9c117c5c95d0644f3cc796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 16/24] fix: kinematic calibration can move rotations which
 start at zero

---
 .../rct_optimizations/dh_chain_kinematic_calibration.h    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h b/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
index 59b1c66..ccdd5b9 100644
--- a/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
+++ b/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
@@ -160,6 +160,14 @@ public:
     {
       result *= Eigen::AngleAxis<T>(aa_norm, aa.normalized());
     }
+    else
+    {
+      // Use the first order approximation of the rotation rather than a constant; otherwise the derivatives with respect
+      // to the angle axis vanish and the optimization cannot move away from a zero rotation
+      Eigen::Matrix<T, 3, 3> rot;
+      rot << T(1.0), -aa.z(), aa.y(), aa.z(), T(1.0), -aa.x(), -aa.y(), aa.x(), T(1.0);
+      result.linear() = rot;
+    }
     return result;
   }
 
-- 
2.43.0


From 17fb17ea2fab49a617585892e6122dc3250f4ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 17/24] fix: pose measurements which fit exactly do not give
 NaN derivatives

---
 .../include/rct_optimizations/dh_chain_kinematic_calibration.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h b/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
index ccdd5b9..7bfdf74 100644
--- a/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
+++ b/rct_optimizations/include/rct_optimizations/dh_chain_kinematic_calibration.h
@@ -408,7 +408,8 @@ public:
     T rot_diff = Eigen::Quaternion<T>(camera_to_target_measured_.cast<T>().linear())
                      .angularDistance(Eigen::Quaternion<T>(camera_to_target.linear()));
 
-    residual[3] = ceres::IsNaN(rot_diff) ? T(0.0) : T(orientation_weight_) * rot_diff;
+    // The derivatives of the angular distance are not defined where it is zero (nor is the distance itself if it is NaN)
+    residual[3] = rot_diff > T(0.0) ? T(T(orientation_weight_) * rot_diff) : T(0.0);
 
     return true;
   }
-- 
2.43.0


From ab12abac710f3c767ab64ddf3038202f324c0381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 18/24] fix: negative mask indices are rejected

---
 .../include/rct_optimizations/local_parameterization.h    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rct_optimizations/include/rct_optimizations/local_parameterization.h b/rct_optimizations/include/rct_optimizations/local_parameterization.h
index b907048..d0599bd 100644
--- a/rct_optimizations/include/rct_optimizations/local_parameterization.h
+++ b/rct_optimizations/include/rct_optimizations/local_parameterization.h
@@ -109,6 +109,14 @@ void addSubsetParameterization(ceres::Problem& problem, const std::map<const dou
         auto last = std::unique(mask.begin(), mask.end());
         mask.erase(last, mask.end());
 
+        // Check that there are no negative indices
+        if (mask.front() < 0)
+        {
+          std::stringstream ss;
+          ss << "Mask indices cannot be negative (" << mask.front() << ")";
+          throw OptimizationException(ss.str());
+        }
+
         // Check that the max index is not greater than the number of elements in the block
         auto it = std::max_element(mask.begin(), mask.end());
         if (static_cast<std::size_t>(*it) >= block_size)
-- 
2.43.0


From 4d59e882544cb9a80a69005e603b2926fd069b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:38 +0000
Subject: [PATCH 19/24] fix: correspondence data sets handle cameras with
 different numbers of images

---
 rct_ros_tools/src/data_set.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rct_ros_tools/src/data_set.cpp b/rct_ros_tools/src/data_set.cpp
index 09ae4e7..fe1e70a 100644
--- a/rct_ros_tools/src/data_set.cpp
+++ b/rct_ros_tools/src/data_set.cpp
@@ -129,8 +129,13 @@ rct_ros_tools::ExtrinsicCorrespondenceDataSet::ExtrinsicCorrespondenceDataSet(
   if (debug)
     cv::namedWindow(WINDOW, cv::WINDOW_NORMAL);
 
-  correspondences_.resize(extrinsic_data_set.size(), extrinsic_data_set[0].images.size());
-  mask_.resize(extrinsic_data_set.size(), extrinsic_data_set[0].images.size());
+  // The cameras may have taken different numbers of images; images which a camera did not take count as not found
+  std::size_t image_count = 0;
+  for (const rct_ros_tools::ExtrinsicDataSet& data_set : extrinsic_data_set)
+    image_count = std::max(image_count, data_set.images.size());
+
+  correspondences_.resize(extrinsic_data_set.size(), image_count);
+  mask_.setZero(extrinsic_data_set.size(), image_count);
   for (std::size_t c = 0; c < extrinsic_data_set.size(); ++c)
   {
     // We know it exists, so define a helpful alias
-- 
2.43.0


From bf8d81d78d1c3fedf2d3664cb932d1f216361c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 20/24] fix: saving a data set reports failure to write its
 files

---
 rct_ros_tools/src/data_set.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/rct_ros_tools/src/data_set.cpp b/rct_ros_tools/src/data_set.cpp
index fe1e70a..b287d97 100644
--- a/rct_ros_tools/src/data_set.cpp
+++ b/rct_ros_tools/src/data_set.cpp
@@ -73,14 +73,16 @@ boost::optional<rct_ros_tools::ExtrinsicDataSet> rct_ros_tools::parseFromFile(co
   }
 }
 
-void writePose(const std::string& path, const Eigen::Isometry3d& pose)
+bool writePose(const std::string& path, const Eigen::Isometry3d& pose)
 {
   YAML::Node root(pose);
   std::ofstream ofh(path);
   ofh << root;
+  ofh.close();
+  return !ofh.fail();
 }
 
-void writeDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataSet& data)
+bool writeDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataSet& data)
 {
   YAML::Node root;
 
@@ -95,6 +97,8 @@ void writeDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataS
 
   std::ofstream ofh(path);
   ofh << root;
+  ofh.close();
+  return !ofh.fail();
 }
 
 bool rct_ros_tools::saveToDirectory(const std::string& path, const rct_ros_tools::ExtrinsicDataSet& data)
@@ -103,21 +107,22 @@ bool rct_ros_tools::saveToDirectory(const std::string& path, const rct_ros_tools
   mkdir((path + "/images").c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
   mkdir((path + "/poses").c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
 
+  bool success = true;
   for (std::size_t i = 0; i < data.images.size(); ++i)
   {
     auto name = path + "/images/" + std::to_string(i) + ".png";
-    cv::imwrite(name, data.images[i]);
+    success &= cv::imwrite(name, data.images[i]);
   }
 
   for (std::size_t i = 0; i < data.tool_poses.size(); ++i)
   {
     auto name = path + "/poses/" + std::to_string(i) + ".yaml";
-    writePose(name, data.tool_poses[i]);
+    success &= writePose(name, data.tool_poses[i]);
   }
 
-  writeDirectory(path + "/data.yaml", data);
+  success &= writeDirectory(path + "/data.yaml", data);
 
-  return true;
+  return success;
 }
 
 rct_ros_tools::ExtrinsicCorrespondenceDataSet::ExtrinsicCorrespondenceDataSet(
-- 
2.43.0


From cc642780176d6cd98bb88bd35090ce7065d63d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:06 +0000
Subject: [PATCH 21/24] fix: every listed image is read when noise is qualified

---
 rct_examples/src/tools/noise_qualification_2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_examples/src/tools/noise_qualification_2d.cpp b/rct_examples/src/tools/noise_qualification_2d.cpp
index 97f6e7d..3168f2a 100644
--- a/rct_examples/src/tools/noise_qualification_2d.cpp
+++ b/rct_examples/src/tools/noise_qualification_2d.cpp
@@ -62,7 +62,7 @@ int main(int argc, char** argv)
       // Each entry should have an image path. This path is relative to the root_path directory!
       const auto img_path = root[i]["image"].as<std::string>();
       const std::string image_name = data_path + "/" + img_path;
-      static cv::Mat image = readImageOpenCV(image_name);
+      cv::Mat image = readImageOpenCV(image_name);
 
       // Find the observations in the image
       rct_image_tools::TargetFeatures target_features;
-- 
2.43.0


From 4a9d432ccd1f089c66d1cbfd246f2d1b7c6e5483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:07 +0000
Subject: [PATCH 22/24] fix: a missing data set is rejected by the multi camera
 calibration

---
 rct_examples/src/tools/multi_static_camera_extrinsic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rct_examples/src/tools/multi_static_camera_extrinsic.cpp b/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
index 14a817e..c51ebf6 100644
--- a/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
+++ b/rct_examples/src/tools/multi_static_camera_extrinsic.cpp
@@ -108,7 +108,7 @@ int main(int argc, char** argv)
       data_path[c] = get<std::string>(pnh, param_name);
 
       // Attempt to load the data set from the specified path
-      boost::optional<ExtrinsicDataSet> data_set = *parseFromFile(data_path[c]);
+      boost::optional<ExtrinsicDataSet> data_set = parseFromFile(data_path[c]);
       if (!data_set)
         throw std::runtime_error("Failed to parse data set from path = " + data_path[c]);
       maybe_data_set[c] = *data_set;
-- 
2.43.0


From 0591b4cc12abfe548ae134b3f6cc364a1d1800cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:07 +0000
Subject: [PATCH 23/24] fix: reprojections are drawn on their own image after
 images were skipped

---
 .../src/tools/multi_static_camera_multi_step_extrinsic.cpp    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp b/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
index e85653b..b2950f5 100644
--- a/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
+++ b/rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp
@@ -144,6 +144,7 @@ int main(int argc, char** argv)
     ExtrinsicCorrespondenceDataSet corr_data_set(maybe_data_set, *target_finder, true);
 
     // build problem
+    std::vector<std::size_t> used_images;  // index of the images used in the problem
     problem_def.fix_first_camera = fix_first_camera;
     for (std::size_t i = 0; i < corr_data_set.getImageCount(); ++i)
     {
@@ -153,6 +154,7 @@ int main(int argc, char** argv)
       {
         problem_def.base_to_target_guess.push_back(maybe_data_set[0].tool_poses[i] * wrist_to_target);
         problem_wrist_def.wrist_poses.push_back(maybe_data_set[0].tool_poses[i]);
+        used_images.push_back(i);
         for (std::size_t c = 0; c < corr_data_set.getCameraCount(); ++c)
         {
           problem_def.image_observations[c].push_back(corr_data_set.getCorrespondenceSet(c, i));
@@ -239,7 +241,7 @@ int main(int argc, char** argv)
       }
 
       printTitle("REPROJECT IMAGE " + std::to_string(i));
-      reproject(base_to_target, base_to_camera, intr, maybe_data_set[0].images[i], corr_set);
+      reproject(base_to_target, base_to_camera, intr, maybe_data_set[0].images[used_images[i]], corr_set);
     }
   }
   catch (const std::exception& ex)
-- 
2.43.0


From 75d46a9311a4224076f97b82d7ae159ec3d09480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:07 +0000
Subject: [PATCH 24/24] fix: the save service reports failure to write the data
 set

---
 rct_ros_tools/src/command_line_cal.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rct_ros_tools/src/command_line_cal.cpp b/rct_ros_tools/src/command_line_cal.cpp
index 16fca3b..9875152 100644
--- a/rct_ros_tools/src/command_line_cal.cpp
+++ b/rct_ros_tools/src/command_line_cal.cpp
@@ -182,7 +182,11 @@ struct DataCollection
     }
 
     ROS_INFO_STREAM("Saving data-set to " << save_dir_);
-    rct_ros_tools::saveToDirectory(save_dir_, data);
+    if (!rct_ros_tools::saveToDirectory(save_dir_, data))
+    {
+      ROS_ERROR_STREAM("Failed to save data-set to " << save_dir_);
+      return false;
+    }
     return true;
   }
 
-- 
2.43.0

