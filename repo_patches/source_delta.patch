From 0a7018d145c3f15604974f474174bf06aad6fec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 01/22] fix: ignore an initial pose whose frame cannot be
 transformed

The missing transform was reported but then dereferenced anyway.
---
 ekf_localizer/src/ekf_localizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ekf_localizer/src/ekf_localizer.cpp b/ekf_localizer/src/ekf_localizer.cpp
index 6adb883..b1e0cf7 100644
--- a/ekf_localizer/src/ekf_localizer.cpp
+++ b/ekf_localizer/src/ekf_localizer.cpp
@@ -242,6 +242,7 @@ void EKFLocalizer::callbackInitialPose(PoseWithCovarianceStamped::SharedPtr init
       fmt::format(
         "TF transform failed. parent = {}, child = {}",
         params.pose_frame_id_, initialpose->header.frame_id));
+    return;
   }
 
   const Eigen::Vector3d initial_position = ToVector3d(initialpose->pose.pose.position);
-- 
2.43.0


From a219de4c24c85eb2ba036447c2447ac810cb2823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 02/22] fix: use every waiting measurement on each tick

The loop bound shrank while messages were popped for the last time, so the
remaining ones were skipped on that tick and used in the wrong order later.
---
 ekf_localizer/src/pose_measurement.cpp  | 4 +++-
 ekf_localizer/src/twist_measurement.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ekf_localizer/src/pose_measurement.cpp b/ekf_localizer/src/pose_measurement.cpp
index 7da742a..a595c6d 100644
--- a/ekf_localizer/src/pose_measurement.cpp
+++ b/ekf_localizer/src/pose_measurement.cpp
@@ -78,7 +78,9 @@ void PoseMeasurement::Update(
 {
   const Eigen::Matrix<double, 3, 6> C = PoseMeasurementMatrix();
 
-  for (size_t i = 0; i < messages_.size(); ++i) {
+  // pop() drops messages which have been used often enough, so the size changes in the loop
+  const size_t n_messages = messages_.size();
+  for (size_t i = 0; i < n_messages; ++i) {
     const auto pose = messages_.pop();
 
     CheckFrameId(warning_, pose->header.frame_id, frame_id_);
diff --git a/ekf_localizer/src/twist_measurement.cpp b/ekf_localizer/src/twist_measurement.cpp
index c6a60dc..b0e3b76 100644
--- a/ekf_localizer/src/twist_measurement.cpp
+++ b/ekf_localizer/src/twist_measurement.cpp
@@ -74,7 +74,9 @@ void TwistMeasurement::Update(
 {
   const Eigen::Matrix<double, 2, 6> C = TwistMeasurementMatrix();
 
-  for (size_t i = 0; i < messages_.size(); ++i) {
+  // pop() drops messages which have been used often enough, so the size changes in the loop
+  const size_t n_messages = messages_.size();
+  for (size_t i = 0; i < n_messages; ++i) {
     const auto twist = messages_.pop();
 
     CheckFrameId(warning_, twist->header.frame_id, "base_link");
-- 
2.43.0


From 5846fde9484f49372f9f8bfd81921986832a41de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 03/22] fix: take the heading innovation the short way round

A measured heading on the other side of +-pi produced an innovation of almost
2 pi and dragged the estimate all the way round.
---
 ekf_localizer/src/pose_measurement.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ekf_localizer/src/pose_measurement.cpp b/ekf_localizer/src/pose_measurement.cpp
index a595c6d..6ce9f65 100644
--- a/ekf_localizer/src/pose_measurement.cpp
+++ b/ekf_localizer/src/pose_measurement.cpp
@@ -93,13 +93,16 @@ void PoseMeasurement::Update(
       continue;
     }
 
-    const Eigen::Vector3d y = PoseMeasurementVector(pose->pose.pose);
+    Eigen::Vector3d y = PoseMeasurementVector(pose->pose.pose);
 
     if (!CheckMeasurementMatrixNanInf(warning_, y)) {
       continue;
     }
 
     const Eigen::Vector3d y_ekf = GetPoseState(ekf->getX(delay_step));
+    // Choose the representation of the measured yaw which is closest to the state,
+    // so that the innovation never goes the long way round
+    y(2) = y_ekf(2) + normalizeYaw(y(2) - y_ekf(2));
     const Eigen::Matrix3d P_y = PoseCovariance(ekf->getLatestP());
 
     if (!CheckMahalanobisGate(warning_, gate_dist_, y_ekf, y, P_y)) {
-- 
2.43.0


From 6d4efffdd4354d8b40200275549a3e26a1530572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 04/22] fix: do not overflow the delay step of very old
 measurements

A zero stamp or a tiny interval made the conversion to int overflow; the
negative step passed the check against the history length.
---
 ekf_localizer/include/ekf_localizer/delay.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ekf_localizer/include/ekf_localizer/delay.hpp b/ekf_localizer/include/ekf_localizer/delay.hpp
index e01d921..dc68941 100644
--- a/ekf_localizer/include/ekf_localizer/delay.hpp
+++ b/ekf_localizer/include/ekf_localizer/delay.hpp
@@ -16,6 +16,10 @@
 #define EKF_LOCALIZER__DELAY_HPP_
 
 #include <algorithm>
+#include <cmath>
+#include <limits>
+
+#include <rclcpp/rclcpp.hpp>
 
 
 inline double ComputeDelayTime(
@@ -27,7 +31,13 @@ inline double ComputeDelayTime(
 
 inline int ComputeDelayStep(const double delay_time, const double dt)
 {
-  return std::roundf(std::max(delay_time, 0.) / dt);
+  if (!(delay_time > 0.)) {
+    return 0;
+  }
+  // The step does not always fit in an int (e.g. if the stamp is zero)
+  constexpr int max_step = std::numeric_limits<int>::max();
+  const double step = std::round(delay_time / dt);
+  return step < max_step ? static_cast<int>(step) : max_step;
 }
 
 #endif  // EKF_LOCALIZER__DELAY_HPP_
-- 
2.43.0


From 066fa156d76ac2916540c6bd6c0e6f595ff805e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 05/22] fix: never use received text as a format string

Warnings contain frame names sent by others.
---
 ekf_localizer/include/ekf_localizer/warning.hpp | 8 ++++----
 ekf_localizer/src/ekf_localizer.cpp             | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ekf_localizer/include/ekf_localizer/warning.hpp b/ekf_localizer/include/ekf_localizer/warning.hpp
index d0b02cc..0d50b8c 100644
--- a/ekf_localizer/include/ekf_localizer/warning.hpp
+++ b/ekf_localizer/include/ekf_localizer/warning.hpp
@@ -30,17 +30,17 @@ public:
 
   void Info(const std::string & message) const
   {
-    RCLCPP_INFO(node_->get_logger(), message.c_str());
+    RCLCPP_INFO(node_->get_logger(), "%s", message.c_str());
   }
 
   void Warn(const std::string & message) const
   {
-    RCLCPP_WARN(node_->get_logger(), message.c_str());
+    RCLCPP_WARN(node_->get_logger(), "%s", message.c_str());
   }
 
   void Error(const std::string & message) const
   {
-    RCLCPP_ERROR(node_->get_logger(), message.c_str());
+    RCLCPP_ERROR(node_->get_logger(), "%s", message.c_str());
   }
 
   void WarnThrottle(
@@ -50,7 +50,7 @@ public:
     RCLCPP_WARN_THROTTLE(
       node_->get_logger(), *(node_->get_clock()),
       std::chrono::milliseconds(duration_milliseconds).count(),
-      message.c_str());
+      "%s", message.c_str());
   }
 
 private:
diff --git a/ekf_localizer/src/ekf_localizer.cpp b/ekf_localizer/src/ekf_localizer.cpp
index b1e0cf7..08afff1 100644
--- a/ekf_localizer/src/ekf_localizer.cpp
+++ b/ekf_localizer/src/ekf_localizer.cpp
@@ -185,7 +185,7 @@ void EKFLocalizer::timerCallback()
         const double dt = interval_.Compute(current_time.seconds());
         return std::make_optional<double>(dt);
       } catch (const std::invalid_argument & e) {
-        RCLCPP_WARN(this->get_logger(), e.what());
+        RCLCPP_WARN(this->get_logger(), "%s", e.what());
         return std::nullopt;
       }
     }();
-- 
2.43.0


From 7bb5c16fe8a6dbd5db3b7304fcc6d408db026ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 06/22] fix: do not read the first character of an empty frame
 name

---
 ekf_localizer/src/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekf_localizer/src/string.cpp b/ekf_localizer/src/string.cpp
index be6884e..a033629 100644
--- a/ekf_localizer/src/string.cpp
+++ b/ekf_localizer/src/string.cpp
@@ -18,7 +18,7 @@
 std::string EraseBeginSlash(const std::string & s)
 {
   std::string a = s;
-  if (a.front() == '/') {
+  if (!a.empty() && a.front() == '/') {
     a.erase(0, 1);
   }
   return a;
-- 
2.43.0


From aed6386c33a4a30263fc9dc4d98d73042a25491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:49 +0000
Subject: [PATCH 07/22] fix: apply the whole transform to an initial pose and
 restart all filters

The position was not rotated, height, roll and pitch were not transformed at
all, and their filters kept the state from before the restart.
---
 .../include/ekf_localizer/ekf_localizer.hpp   |  2 ++
 ekf_localizer/src/ekf_localizer.cpp           | 36 +++++++++++++++----
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp b/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
index 6cf61a8..b0b676e 100644
--- a/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
+++ b/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
@@ -244,6 +244,8 @@ private:
    */
   void updatePredictFrequency();
 
+  void initSimple1DFilters(const PoseWithCovarianceStamped & pose);
+
   void updateSimple1DFilters(const PoseWithCovarianceStamped & pose);
 
   friend class EKFLocalizerTestSuite;  // for test code
diff --git a/ekf_localizer/src/ekf_localizer.cpp b/ekf_localizer/src/ekf_localizer.cpp
index 08afff1..a206648 100644
--- a/ekf_localizer/src/ekf_localizer.cpp
+++ b/ekf_localizer/src/ekf_localizer.cpp
@@ -245,17 +245,23 @@ void EKFLocalizer::callbackInitialPose(PoseWithCovarianceStamped::SharedPtr init
     return;
   }
 
-  const Eigen::Vector3d initial_position = ToVector3d(initialpose->pose.pose.position);
-  const Eigen::Vector3d translation = ToVector3d(maybe_transform->transform.translation);
-  const Eigen::Vector3d t = initial_position + translation;
-  const double initial_yaw = tf2::getYaw(initialpose->pose.pose.orientation);
-  const double yaw = tf2::getYaw(maybe_transform->transform.rotation);
+  const geometry_msgs::msg::Pose & pose = initialpose->pose.pose;
+  const geometry_msgs::msg::Transform & transform = maybe_transform->transform;
 
-  const Vector6d x = InitState(t(0), t(1), initial_yaw + yaw);
+  PoseWithCovarianceStamped pose_in_map = *initialpose;
+  pose_in_map.pose.pose = MakePose(
+    MakeIsometry3d(
+      ToQuaterniond(transform.rotation).normalized(), ToVector3d(transform.translation)) *
+    MakeIsometry3d(ToQuaterniond(pose.orientation).normalized(), ToVector3d(pose.position)));
+
+  const Eigen::Vector3d t = ToVector3d(pose_in_map.pose.pose.position);
+  const double yaw = tf2::getYaw(pose_in_map.pose.pose.orientation);
+
+  const Vector6d x = InitState(t(0), t(1), yaw);
   const Matrix6d P = InitCovariance(initialpose->pose.covariance);
   ekf_.reset(new TimeDelayKalmanFilter(x, P, params.extend_state_step_));
 
-  updateSimple1DFilters(*initialpose);
+  initSimple1DFilters(pose_in_map);
 
   pose_measurement_.Clear();
   twist_measurement_.Clear();
@@ -273,6 +279,22 @@ void EKFLocalizer::callbackTwistWithCovariance(TwistWithCovarianceStamped::Share
   twist_measurement_.Push(msg);
 }
 
+void EKFLocalizer::initSimple1DFilters(const PoseWithCovarianceStamped & pose)
+{
+  const double z = pose.pose.pose.position.z;
+
+  const Eigen::Vector3d rpy = createRPYfromQuaternion(pose.pose.pose.orientation);
+
+  const Matrix6d covariance = GetEigenCovariance(pose.pose.covariance);
+  const double z_stddev = std::sqrt(covariance(2, 2));
+  const double roll_stddev = std::sqrt(covariance(3, 3));
+  const double pitch_stddev = std::sqrt(covariance(4, 4));
+
+  z_filter_.init(z, z_stddev, pose.header.stamp);
+  roll_filter_.init(rpy(0), roll_stddev, pose.header.stamp);
+  pitch_filter_.init(rpy(1), pitch_stddev, pose.header.stamp);
+}
+
 void EKFLocalizer::updateSimple1DFilters(const PoseWithCovarianceStamped & pose)
 {
   const double z = pose.pose.pose.position.z;
-- 
2.43.0


From 172478c96c92b5d62725e40cf3c83544d7483ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:56 +0000
Subject: [PATCH 08/22] fix: ignore pose and twist messages which are not
 usable

Non-finite values, a null quaternion, a covariance which is not one, or a
negative stamp ended the node or stayed in the estimate for good.
---
 ekf_localizer/include/ekf_localizer/check.hpp | 13 +++
 ekf_localizer/src/check.cpp                   | 86 +++++++++++++++++++
 ekf_localizer/src/ekf_localizer.cpp           | 12 +++
 3 files changed, 111 insertions(+)

diff --git a/ekf_localizer/include/ekf_localizer/check.hpp b/ekf_localizer/include/ekf_localizer/check.hpp
index 8ca2230..48f0add 100644
--- a/ekf_localizer/include/ekf_localizer/check.hpp
+++ b/ekf_localizer/include/ekf_localizer/check.hpp
@@ -19,6 +19,9 @@
 
 #include <string>
 
+#include <geometry_msgs/msg/pose_with_covariance_stamped.hpp>
+#include <geometry_msgs/msg/twist_with_covariance_stamped.hpp>
+
 #include "ekf_localizer/mahalanobis.hpp"
 #include "ekf_localizer/warning.hpp"
 
@@ -56,4 +59,14 @@ bool CheckMahalanobisGate(
   const Eigen::MatrixXd & x2,
   const Eigen::MatrixXd & cov);
 
+// Check if the message can be used at all, i.e. that the stamp can be converted, the values are
+// finite, the orientation can be normalized, and that the covariance is a covariance
+bool CheckPoseMessage(
+  const Warning & warning,
+  const geometry_msgs::msg::PoseWithCovarianceStamped & pose);
+
+bool CheckTwistMessage(
+  const Warning & warning,
+  const geometry_msgs::msg::TwistWithCovarianceStamped & twist);
+
 #endif  // EKF_LOCALIZER__CHECK_HPP_
diff --git a/ekf_localizer/src/check.cpp b/ekf_localizer/src/check.cpp
index 8be089c..bf39abc 100644
--- a/ekf_localizer/src/check.cpp
+++ b/ekf_localizer/src/check.cpp
@@ -17,6 +17,11 @@
 
 #include "ekf_localizer/check.hpp"
 
+#include <Eigen/Eigenvalues>
+
+#include "lidar_feature_library/eigen.hpp"
+#include "lidar_feature_library/ros_msg.hpp"
+
 
 void ShowDelayTimeWarning(const Warning & warning, const double delay_time)
 {
@@ -112,3 +117,84 @@ bool CheckMahalanobisGate(
   }
   return good;
 }
+
+void ShowUnusableMessageWarning(const Warning & warning, const std::string & name)
+{
+  warning.WarnThrottle(
+    1000,
+    fmt::format("[EKF] The {} message is not usable. Ignore it.", name));
+}
+
+bool IsFinite(const Eigen::MatrixXd & M)
+{
+  return !HasNan(M) && !HasInf(M);
+}
+
+bool IsCovariance(const Eigen::MatrixXd & C)
+{
+  if (!IsFinite(C)) {
+    return false;
+  }
+
+  const double tolerance = 1e-6 * C.cwiseAbs().maxCoeff();
+  if ((C - C.transpose()).cwiseAbs().maxCoeff() > tolerance) {
+    return false;
+  }
+
+  const Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> solver(C, Eigen::EigenvaluesOnly);
+  return solver.eigenvalues().minCoeff() >= -tolerance;
+}
+
+bool IsUsable(const geometry_msgs::msg::PoseWithCovarianceStamped & pose)
+{
+  const Eigen::Quaterniond q = ToQuaterniond(pose.pose.pose.orientation);
+  const Matrix6d C = GetEigenCovariance(pose.pose.covariance);
+
+  Eigen::Matrix3d planar;
+  planar <<
+    C(0, 0), C(0, 1), C(0, 5),
+    C(1, 0), C(1, 1), C(1, 5),
+    C(5, 0), C(5, 1), C(5, 5);
+  const Eigen::Vector3d z_roll_pitch(C(2, 2), C(3, 3), C(4, 4));
+
+  return pose.header.stamp.sec >= 0 &&
+         IsFinite(ToVector3d(pose.pose.pose.position)) &&
+         std::isfinite(q.norm()) && q.norm() > 1e-6 &&
+         IsCovariance(planar) && IsFinite(z_roll_pitch) && z_roll_pitch.minCoeff() >= 0.;
+}
+
+bool IsUsable(const geometry_msgs::msg::TwistWithCovarianceStamped & twist)
+{
+  const Matrix6d C = GetEigenCovariance(twist.twist.covariance);
+
+  Eigen::Matrix2d planar;
+  planar <<
+    C(0, 0), C(0, 5),
+    C(5, 0), C(5, 5);
+
+  return twist.header.stamp.sec >= 0 &&
+         std::isfinite(twist.twist.twist.linear.x) && std::isfinite(twist.twist.twist.angular.z) &&
+         IsCovariance(planar);
+}
+
+bool CheckPoseMessage(
+  const Warning & warning,
+  const geometry_msgs::msg::PoseWithCovarianceStamped & pose)
+{
+  const bool good = IsUsable(pose);
+  if (!good) {
+    ShowUnusableMessageWarning(warning, "pose");
+  }
+  return good;
+}
+
+bool CheckTwistMessage(
+  const Warning & warning,
+  const geometry_msgs::msg::TwistWithCovarianceStamped & twist)
+{
+  const bool good = IsUsable(twist);
+  if (!good) {
+    ShowUnusableMessageWarning(warning, "twist");
+  }
+  return good;
+}
diff --git a/ekf_localizer/src/ekf_localizer.cpp b/ekf_localizer/src/ekf_localizer.cpp
index a206648..85765e7 100644
--- a/ekf_localizer/src/ekf_localizer.cpp
+++ b/ekf_localizer/src/ekf_localizer.cpp
@@ -234,6 +234,10 @@ void EKFLocalizer::timerCallback()
 
 void EKFLocalizer::callbackInitialPose(PoseWithCovarianceStamped::SharedPtr initialpose)
 {
+  if (!CheckPoseMessage(warning_, *initialpose)) {
+    return;
+  }
+
   const auto maybe_transform = listener_.LookupTransform(
     EraseBeginSlash(params.pose_frame_id_),
     EraseBeginSlash(initialpose->header.frame_id));
@@ -269,6 +273,10 @@ void EKFLocalizer::callbackInitialPose(PoseWithCovarianceStamped::SharedPtr init
 
 void EKFLocalizer::callbackPoseWithCovariance(PoseWithCovarianceStamped::SharedPtr msg)
 {
+  if (!CheckPoseMessage(warning_, *msg)) {
+    return;
+  }
+
   pose_measurement_.Push(msg);
 
   updateSimple1DFilters(*msg);
@@ -276,6 +284,10 @@ void EKFLocalizer::callbackPoseWithCovariance(PoseWithCovarianceStamped::SharedP
 
 void EKFLocalizer::callbackTwistWithCovariance(TwistWithCovarianceStamped::SharedPtr msg)
 {
+  if (!CheckTwistMessage(warning_, *msg)) {
+    return;
+  }
+
   twist_measurement_.Push(msg);
 }
 
-- 
2.43.0


From fd2539d1bc21e4fb24cb095dcd9cd800cdaad784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:12 +0000
Subject: [PATCH 09/22] fix: keep the 1D filters finite when both variances are
 zero

---
 ekf_localizer/include/ekf_localizer/ekf_localizer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp b/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
index b0b676e..598b0fc 100644
--- a/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
+++ b/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
@@ -84,7 +84,8 @@ public:
     stddev_ = std::sqrt(stddev_ * stddev_ + proc_stddev_x_d * proc_stddev_x_d);
 
     // Update step
-    double kalman_gain = stddev_ * stddev_ / (stddev_ * stddev_ + obs_stddev * obs_stddev);
+    const double sum = stddev_ * stddev_ + obs_stddev * obs_stddev;
+    double kalman_gain = sum > 0. ? stddev_ * stddev_ / sum : 0.;
     x_ = x_ + kalman_gain * (obs - x_);
     stddev_ = std::sqrt(1 - kalman_gain) * stddev_;
 
-- 
2.43.0


From 4ca1158214f7a1fd48f4be70fb81ccccf4ea6734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:32 +0000
Subject: [PATCH 10/22] fix: remove also the first entry when all are newer
 than the stamp

---
 .../stamp_sorted_objects.hpp                        | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp b/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
index 1c600a1..c6c7de9 100644
--- a/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
+++ b/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
@@ -90,18 +90,7 @@ public:
     // g is the first element in map that satisfies timestamp < g
     const auto g = objects_.upper_bound(timestamp);
 
-    if (g == objects_.end()) {
-      return;
-    }
-
-    const auto boundary = std::prev(g);
-
-    auto curr = std::prev(objects_.end());
-    while (curr != boundary) {
-      auto prev = std::prev(curr);
-      objects_.erase(curr);
-      curr = prev;
-    }
+    objects_.erase(g, objects_.end());
   }
 
 private:
-- 
2.43.0


From 094b8a7260c65b158aee4ae4c569ce66049d04b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:32 +0000
Subject: [PATCH 11/22] fix: forget old priors instead of the newest ones

---
 .../stamp_sorted_objects.hpp                      | 15 +++++++++++++++
 .../lidar_feature_localization/subscriber.hpp     |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp b/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
index c6c7de9..451eed4 100644
--- a/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
+++ b/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
@@ -93,6 +93,21 @@ public:
     objects_.erase(g, objects_.end());
   }
 
+  // Remove the entries that cannot be the closest one to any stamp after the timestamp
+  void ForgetBefore(const double timestamp)
+  {
+    std::lock_guard<std::mutex> guard(mutex_);
+
+    // g is the first element in map that satisfies timestamp < g
+    const auto g = objects_.upper_bound(timestamp);
+
+    if (g == objects_.begin()) {
+      return;
+    }
+
+    objects_.erase(objects_.begin(), std::prev(g));
+  }
+
 private:
   std::mutex mutex_;
   std::map<double, Object> objects_;
diff --git a/localization/include/lidar_feature_localization/subscriber.hpp b/localization/include/lidar_feature_localization/subscriber.hpp
index a658f86..ac10105 100644
--- a/localization/include/lidar_feature_localization/subscriber.hpp
+++ b/localization/include/lidar_feature_localization/subscriber.hpp
@@ -143,7 +143,7 @@ public:
 
     const double msg_stamp_nanosec = Nanoseconds(edge_msg->header.stamp);
     const auto [prior_stamp_nanosec, prior] = prior_poses_.GetClosest(msg_stamp_nanosec);
-    prior_poses_.RemoveOlderThan(msg_stamp_nanosec + 1e9);  // 1e9 msg_stamp_nanosec = 1s
+    prior_poses_.ForgetBefore(msg_stamp_nanosec - 1e9);  // 1e9 msg_stamp_nanosec = 1s
 
     RCLCPP_INFO(
       this->get_logger(),
-- 
2.43.0


From da8bab79f0ac2b9ad996fda722cc1e64366d8b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:34 +0000
Subject: [PATCH 12/22] fix: refuse to serve a map which could not be loaded

---
 map_loader/src/map_loader.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/map_loader/src/map_loader.cpp b/map_loader/src/map_loader.cpp
index 46cf732..71a05da 100644
--- a/map_loader/src/map_loader.cpp
+++ b/map_loader/src/map_loader.cpp
@@ -30,6 +30,7 @@
 #include <pcl/point_types.h>
 #include <pcl/io/auto_io.h>
 
+#include <stdexcept>
 #include <string>
 #include <memory>
 
@@ -44,7 +45,10 @@
 sensor_msgs::msg::PointCloud2 LoadMap(const std::string & filepath)
 {
   sensor_msgs::msg::PointCloud2 map;
-  pcl::io::loadPCDFile(filepath, map);
+  const int result = pcl::io::loadPCDFile(filepath, map);
+  if (result < 0 || map.data.empty()) {
+    throw std::runtime_error("Failed to load a map from " + filepath);
+  }
   map.header.frame_id = "map";
   return map;
 }
-- 
2.43.0


From 6a801b3ba5bd82c284eb9b8c329ca509e667ac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:59 +0000
Subject: [PATCH 13/22] fix: use only finite map points for the view frame

---
 .../src/map_tf_generator_node.cpp             | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/map_tf_generator/src/map_tf_generator_node.cpp b/map_tf_generator/src/map_tf_generator_node.cpp
index 0c140da..80a1d8d 100644
--- a/map_tf_generator/src/map_tf_generator_node.cpp
+++ b/map_tf_generator/src/map_tf_generator_node.cpp
@@ -13,6 +13,7 @@
 // limitations under the License.
 
 #include <pcl/point_cloud.h>
+#include <pcl/common/point_tests.h>
 #include <pcl/point_types.h>
 #include <pcl_conversions/pcl_conversions.h>
 #include <tf2/LinearMath/Quaternion.h>
@@ -56,13 +57,23 @@ private:
     PointCloud clouds;
     pcl::fromROSMsg<pcl::PointXYZ>(*clouds_ros, clouds);
 
-    const unsigned int sum = clouds.points.size();
+    unsigned int sum = 0;
     double coordinate[3] = {0, 0, 0};
-    for (unsigned int i = 0; i < sum; i++) {
-      coordinate[0] += clouds.points[i].x;
-      coordinate[1] += clouds.points[i].y;
-      coordinate[2] += clouds.points[i].z;
+    for (const auto & point : clouds.points) {
+      if (!pcl::isFinite(point)) {
+        continue;
+      }
+      coordinate[0] += point.x;
+      coordinate[1] += point.y;
+      coordinate[2] += point.z;
+      sum++;
     }
+
+    if (sum == 0) {
+      RCLCPP_WARN(get_logger(), "No finite point in the map. Static tf is not broadcasted");
+      return;
+    }
+
     coordinate[0] = coordinate[0] / sum;
     coordinate[1] = coordinate[1] / sum;
     coordinate[2] = coordinate[2] / sum;
-- 
2.43.0


From 974f2cccbafc8b47659c68c88b029d2b3d3909c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:02 +0000
Subject: [PATCH 14/22] fix: order ring points consistently, also several on
 the positive x axis

---
 .../include/lidar_feature_extraction/ring.hpp | 39 ++++++++++++-------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/extraction/include/lidar_feature_extraction/ring.hpp b/extraction/include/lidar_feature_extraction/ring.hpp
index bac6aa2..63fc4ea 100644
--- a/extraction/include/lidar_feature_extraction/ring.hpp
+++ b/extraction/include/lidar_feature_extraction/ring.hpp
@@ -64,37 +64,46 @@ struct AHasSmallerPolarAngleThanB
       return false;
     }
 
-    const double lena = a.x * a.x + a.y * a.y;
-    const double lenb = b.x * b.x + b.y * b.y;
+    // products of floats are exact in double
+    const double ax = a.x;
+    const double ay = a.y;
+    const double bx = b.x;
+    const double by = b.y;
+
+    const double lena = ax * ax + ay * ay;
+    const double lenb = bx * bx + by * by;
 
     if (lena == 0) {
-      if (b.y == 0) {
-        // for the case that b.x > 0
-        // --> atan2(b.x, b.y) == atan2(a.y, a.x) == 0
-        return b.x < 0;
+      if (by == 0) {
+        // for the case that bx > 0
+        // --> atan2(b.y, b.x) == atan2(a.y, a.x) == 0
+        return bx < 0;
       }
-      return b.y > 0;
+      return by > 0;
     }
 
     if (lenb == 0) {
-      return a.y < 0;
+      return ay < 0;
     }
 
-    if (a.y == 0) {
-      return (a.x >= 0) && (b.y >= 0);
+    if (ay == 0) {
+      if (by == 0) {
+        return (ax >= 0) && (bx < 0);
+      }
+      return (ax >= 0) && (by > 0);
     }
 
-    if (b.y == 0) {
-      return !((b.x >= 0) && (a.y >= 0));
+    if (by == 0) {
+      return !((bx >= 0) && (ay >= 0));
     }
 
     // both have the same y sign
-    if (a.y * b.y > 0) {
-      const double det = a.x * b.y - a.y * b.x;
+    if (ay * by > 0) {
+      const double det = ax * by - ay * bx;
       return det > 0;
     }
 
-    return a.y < 0;
+    return ay < 0;
   }
 };
 
-- 
2.43.0


From c1c927cd811838aeae9212aaf771a16a29e553e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:02 +0000
Subject: [PATCH 15/22] fix: take points in exactly the same direction as
 neighbors

---
 extraction/src/math.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extraction/src/math.cpp b/extraction/src/math.cpp
index d12c786..972b473 100644
--- a/extraction/src/math.cpp
+++ b/extraction/src/math.cpp
@@ -26,6 +26,7 @@
 // ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 // POSSIBILITY OF SUCH DAMAGE.
 
+#include <algorithm>
 #include <stdexcept>
 
 #include "lidar_feature_extraction/math.hpp"
@@ -42,5 +43,6 @@ double CalcRadian(const double x1, const double y1, const double x2, const doubl
   }
 
   const double cos_angle = dot / (norm1 * norm2);
-  return std::acos(cos_angle);
+  // rounding may bring the cosine of equal directions slightly above one
+  return std::acos(std::clamp(cos_angle, -1., 1.));
 }
-- 
2.43.0


From 705d17de82a77a830585731c19d59d45afa98c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 16/22] fix: do not add scans to the map at unusable poses

A pose with a non finite number or a null quaternion filled the map with
points that are not finite, and every later scan became a keyframe.
---
 mapping/include/lidar_feature_mapping/map.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mapping/include/lidar_feature_mapping/map.hpp b/mapping/include/lidar_feature_mapping/map.hpp
index 62fc041..9bbd074 100644
--- a/mapping/include/lidar_feature_mapping/map.hpp
+++ b/mapping/include/lidar_feature_mapping/map.hpp
@@ -33,6 +33,7 @@
 #include <pcl/point_cloud.h>
 #include <pcl/point_types.h>
 
+#include <cmath>
 #include <memory>
 #include <string>
 
@@ -58,6 +59,13 @@ bool PoseDiffIsSufficientlySmall(
   return dt.norm() < translation_threshold && dq.vec().norm() < rotation_threshold;
 }
 
+bool PoseIsUsable(const geometry_msgs::msg::Pose & pose)
+{
+  const Eigen::Vector3d t = ToVector3d(pose.position);
+  const Eigen::Quaterniond q = ToQuaterniond(pose.orientation);
+  return t.allFinite() && std::abs(q.norm() - 1.0) < 1e-3;
+}
+
 template<typename T>
 class Map
 {
@@ -105,6 +113,11 @@ public:
     const sensor_msgs::msg::PointCloud2::ConstSharedPtr & cloud_msg,
     const geometry_msgs::msg::PoseStamped::ConstSharedPtr & pose_msg)
   {
+    if (!PoseIsUsable(pose_msg->pose)) {
+      RCLCPP_WARN(GetMappingLogger(), "The pose is not usable. Do nothing and continue");
+      return;
+    }
+
     const Eigen::Isometry3d transform = GetIsometry3d(pose_msg->pose);
     const auto cloud = GetPointCloud<PointType>(*cloud_msg);
 
-- 
2.43.0


From 0c4d6d4fc18ade2743340b30b0b5e7aaef105dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 17/22] fix: add each scan to the map only once

A pair received again after newer ones was inserted a second time.
---
 mapping/include/lidar_feature_mapping/map.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mapping/include/lidar_feature_mapping/map.hpp b/mapping/include/lidar_feature_mapping/map.hpp
index 9bbd074..046acad 100644
--- a/mapping/include/lidar_feature_mapping/map.hpp
+++ b/mapping/include/lidar_feature_mapping/map.hpp
@@ -35,6 +35,7 @@
 
 #include <cmath>
 #include <memory>
+#include <set>
 #include <string>
 
 #include <geometry_msgs/msg/pose_stamped.hpp>
@@ -141,6 +142,12 @@ public:
       return;
     }
 
+    // A pair that is received again, for example after a newer one, must not be added twice
+    const rclcpp::Time stamp(cloud_msg->header.stamp);
+    if (!added_stamps_.insert(stamp.nanoseconds()).second) {
+      return;
+    }
+
     map_->TransformAdd(transform, cloud);
     prev_transform_ = transform;
   }
@@ -163,6 +170,7 @@ public:
 
   std::shared_ptr<Map<PointType>> map_;
   Eigen::Isometry3d prev_transform_;
+  std::set<int64_t> added_stamps_;
 };
 
 #endif  // LIDAR_FEATURE_MAPPING__MAP_HPP_
-- 
2.43.0


From ea4b21a365ecdaacbdfb19b4eb430750180cc94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 18/22] fix: ignore priors that are not usable as a start of
 the optimization

---
 .../lidar_feature_localization/subscriber.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/localization/include/lidar_feature_localization/subscriber.hpp b/localization/include/lidar_feature_localization/subscriber.hpp
index ac10105..07d97f3 100644
--- a/localization/include/lidar_feature_localization/subscriber.hpp
+++ b/localization/include/lidar_feature_localization/subscriber.hpp
@@ -38,6 +38,7 @@
 
 #include <inttypes.h>
 
+#include <cmath>
 #include <memory>
 #include <string>
 
@@ -64,6 +65,13 @@ inline rclcpp::SubscriptionOptions MutuallyExclusiveOption(rclcpp::Node & node)
   return main_sub_opt;
 }
 
+inline bool PoseIsUsable(const geometry_msgs::msg::Pose & pose)
+{
+  const Eigen::Vector3d t = ToVector3d(pose.position);
+  const Eigen::Quaterniond q = ToQuaterniond(pose.orientation);
+  return t.allFinite() && std::abs(q.norm() - 1.0) < 1e-3;
+}
+
 double Nanoseconds(const rclcpp::Time & t)
 {
   return static_cast<double>(t.nanoseconds());
@@ -120,9 +128,16 @@ public:
     this->SetOptimizationStartPose(stamped_pose->header.stamp, stamped_pose->pose);
   }
 
-  void SetOptimizationStartPose(const rclcpp::Time & stamp, const geometry_msgs::msg::Pose & pose)
+  void SetOptimizationStartPose(
+    const builtin_interfaces::msg::Time & stamp, const geometry_msgs::msg::Pose & pose)
   {
-    prior_poses_.Insert(Nanoseconds(stamp), GetIsometry3d(pose));
+    // rclcpp::Time cannot represent a negative stamp
+    if (stamp.sec < 0 || !PoseIsUsable(pose)) {
+      RCLCPP_WARN(this->get_logger(), "The prior pose is not usable. It is ignored");
+      return;
+    }
+
+    prior_poses_.Insert(Nanoseconds(rclcpp::Time(stamp)), GetIsometry3d(pose));
   }
 
   void PoseUpdateCallback(
-- 
2.43.0


From dd0063ffaa62513e9a0d4660d30553425241fed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 19/22] fix: do not publish an estimate that is not finite

---
 .../include/lidar_feature_localization/subscriber.hpp        | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/localization/include/lidar_feature_localization/subscriber.hpp b/localization/include/lidar_feature_localization/subscriber.hpp
index 07d97f3..7c19519 100644
--- a/localization/include/lidar_feature_localization/subscriber.hpp
+++ b/localization/include/lidar_feature_localization/subscriber.hpp
@@ -170,6 +170,11 @@ public:
     localizer_.Update(std::make_tuple(edge, surface));
 
     const Eigen::Isometry3d pose = localizer_.Get();
+    if (!pose.matrix().allFinite()) {
+      RCLCPP_WARN(this->get_logger(), "The scan cannot be aligned with the map. It is ignored");
+      return;
+    }
+
     Matrix6d covariance;
     covariance <<
       1.0, 0, 0, 0, 0, 0,
-- 
2.43.0


From f13edffc02f8305498ef774ad07de864b669a998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:03 +0000
Subject: [PATCH 20/22] fix: replace a map file only by a complete one and
 report maps that cannot be saved or loaded

---
 .../save_point_cloud.hpp                      | 85 +++++++++++++++++++
 localization/app/localization.cpp             | 19 ++++-
 .../lidar_feature_localization/map_io.hpp     |  4 +-
 mapping/include/lidar_feature_mapping/map.hpp |  3 +-
 mapping/src/mapping.cpp                       | 14 ++-
 5 files changed, 119 insertions(+), 6 deletions(-)
 create mode 100644 lib/include/lidar_feature_library/save_point_cloud.hpp

diff --git a/lib/include/lidar_feature_library/save_point_cloud.hpp b/lib/include/lidar_feature_library/save_point_cloud.hpp
new file mode 100644
index 0000000..43e141e
--- /dev/null
+++ b/lib/include/lidar_feature_library/save_point_cloud.hpp
@@ -0,0 +1,85 @@
+// Copyright 2022 Tixiao Shan, Takeshi Ishita
+//
+// Redistribution and use in source and binary forms, with or without
+// modification, are permitted provided that the following conditions are met:
+//
+//    * Redistributions of source code must retain the above copyright
+//      notice, this list of conditions and the following disclaimer.
+//
+//    * Redistributions in binary form must reproduce the above copyright
+//      notice, this list of conditions and the following disclaimer in the
+//      documentation and/or other materials provided with the distribution.
+//
+//    * Neither the name of the Tixiao Shan, Takeshi Ishita nor the names of its
+//      contributors may be used to endorse or promote products derived from
+//      this software without specific prior written permission.
+//
+// THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS "AS IS"
+// AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT LIMITED TO, THE
+// IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR A PARTICULAR PURPOSE
+// ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT HOLDER OR CONTRIBUTORS BE
+// LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL, SPECIAL, EXEMPLARY, OR
+// CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT LIMITED TO, PROCUREMENT OF
+// SUBSTITUTE GOODS OR SERVICES; LOSS OF USE, DATA, OR PROFITS; OR BUSINESS
+// INTERRUPTION) HOWEVER CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN
+// CONTRACT, STRICT LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE)
+// ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
+// POSSIBILITY OF SUCH DAMAGE.
+
+#ifndef LIDAR_FEATURE_LIBRARY__SAVE_POINT_CLOUD_HPP_
+#define LIDAR_FEATURE_LIBRARY__SAVE_POINT_CLOUD_HPP_
+
+#include <fcntl.h>
+#include <unistd.h>
+
+#include <pcl/io/auto_io.h>
+#include <pcl/point_cloud.h>
+
+#include <cstdio>
+#include <filesystem>
+#include <stdexcept>
+#include <string>
+
+
+inline void FlushToDisk(const std::string & path)
+{
+  const int fd = ::open(path.c_str(), O_RDONLY);
+  if (fd < 0) {
+    throw std::runtime_error("Failed to open " + path);
+  }
+
+  const bool flushed = ::fsync(fd) == 0;
+  ::close(fd);
+  if (!flushed) {
+    throw std::runtime_error("Failed to write " + path + " to the disk");
+  }
+}
+
+// The file gets its name only once it is complete and on the disk. If this throws or is
+// interrupted, a file that already has the name is left as it is
+template<typename PointType>
+void SavePointCloud(const std::string & filename, const pcl::PointCloud<PointType> & cloud)
+{
+  const std::filesystem::path path(filename);
+  const std::string temporary = filename + ".tmp" + path.extension().string();
+  const std::string directory = path.has_parent_path() ? path.parent_path().string() : ".";
+
+  try {
+    if (pcl::io::save(temporary, cloud) < 0) {
+      throw std::runtime_error("Failed to write " + temporary);
+    }
+
+    FlushToDisk(temporary);
+
+    if (std::rename(temporary.c_str(), filename.c_str()) != 0) {
+      throw std::runtime_error("Failed to rename " + temporary + " to " + filename);
+    }
+  } catch (...) {
+    std::remove(temporary.c_str());
+    throw;
+  }
+
+  FlushToDisk(directory);
+}
+
+#endif  // LIDAR_FEATURE_LIBRARY__SAVE_POINT_CLOUD_HPP_
diff --git a/localization/app/localization.cpp b/localization/app/localization.cpp
index 7659888..9d7b735 100644
--- a/localization/app/localization.cpp
+++ b/localization/app/localization.cpp
@@ -64,6 +64,17 @@ bool CheckMapPathExists(const std::string & map_path)
   return exists;
 }
 
+bool LoadMap(const std::string & map_path, pcl::PointCloud<PointType> & map)
+{
+  const bool loaded = pcl::io::loadPCDFile(map_path, map) == 0 && !map.empty();
+  if (!loaded) {
+    RCLCPP_ERROR(
+      rclcpp::get_logger("lidar_feature_localization"),
+      "Failed to load map %s!", map_path.c_str());
+  }
+  return loaded;
+}
+
 int main(int argc, char * argv[])
 {
   rclcpp::init(argc, argv);
@@ -77,10 +88,14 @@ int main(int argc, char * argv[])
   }
 
   pcl::PointCloud<PointType>::Ptr edge_map(new pcl::PointCloud<PointType>());
-  pcl::io::loadPCDFile(edge_map_path, *edge_map);
+  if (!LoadMap(edge_map_path, *edge_map)) {
+    return -1;
+  }
 
   pcl::PointCloud<PointType>::Ptr surface_map(new pcl::PointCloud<PointType>());
-  pcl::io::loadPCDFile(surface_map_path, *surface_map);
+  if (!LoadMap(surface_map_path, *surface_map)) {
+    return -1;
+  }
 
   Localizer<PointToVector, PointType> localizer(edge_map, surface_map, max_iter);
   rclcpp::spin(std::make_shared<Subscriber>(localizer));
diff --git a/localization/include/lidar_feature_localization/map_io.hpp b/localization/include/lidar_feature_localization/map_io.hpp
index ecc2e43..d7ef812 100644
--- a/localization/include/lidar_feature_localization/map_io.hpp
+++ b/localization/include/lidar_feature_localization/map_io.hpp
@@ -35,6 +35,8 @@
 
 #include <rclcpp/rclcpp.hpp>
 
+#include "lidar_feature_library/save_point_cloud.hpp"
+
 
 template<typename PointType>
 void SaveMapIfNotEmpty(
@@ -52,7 +54,7 @@ void SaveMapIfNotEmpty(
     return;
   }
 
-  pcl::io::save(pcd_filename, *map_ptr);
+  SavePointCloud(pcd_filename, *map_ptr);
 }
 
 
diff --git a/mapping/include/lidar_feature_mapping/map.hpp b/mapping/include/lidar_feature_mapping/map.hpp
index 046acad..5815519 100644
--- a/mapping/include/lidar_feature_mapping/map.hpp
+++ b/mapping/include/lidar_feature_mapping/map.hpp
@@ -46,6 +46,7 @@
 #include "lidar_feature_library/point_type.hpp"
 #include "lidar_feature_library/ros_msg.hpp"
 #include "lidar_feature_library/pcl_utils.hpp"
+#include "lidar_feature_library/save_point_cloud.hpp"
 
 
 bool PoseDiffIsSufficientlySmall(
@@ -89,7 +90,7 @@ public:
 
   void Save(const std::string & pcd_filename) const
   {
-    pcl::io::save(pcd_filename, *map_ptr_);
+    SavePointCloud(pcd_filename, *map_ptr_);
   }
 
   typename pcl::PointCloud<T>::Ptr map_ptr_;
diff --git a/mapping/src/mapping.cpp b/mapping/src/mapping.cpp
index 52df8c2..8bda939 100644
--- a/mapping/src/mapping.cpp
+++ b/mapping/src/mapping.cpp
@@ -37,6 +37,8 @@
 #include <pcl/point_types.h>
 #include <pcl/common/transforms.h>
 
+#include <cstdlib>
+#include <exception>
 #include <memory>
 #include <string>
 
@@ -96,9 +98,17 @@ int main(int argc, char * argv[])
   exec.add_node(edge_sub);
   exec.spin();
 
-  edge_map_builder->SaveMap("maps/edge.pcd");
+  int exit_status = EXIT_SUCCESS;
+  try {
+    edge_map_builder->SaveMap("maps/edge.pcd");
+  } catch (const std::exception & e) {
+    RCLCPP_ERROR(
+      rclcpp::get_logger("lidar_feature_mapping"),
+      "Failed to save the map: %s", e.what());
+    exit_status = EXIT_FAILURE;
+  }
 
   rclcpp::shutdown();
 
-  return 0;
+  return exit_status;
 }
-- 
2.43.0


From 3d26d8f90bd64b56ad39400860b1373a9e1bcaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:31 +0000
Subject: [PATCH 21/22] fix: convert points by the names of their fields,
 whatever their layout

A field at offset 12, where one named padding was assumed, shifted all that
followed it, and a ring in front of the intensity was taken for it.
---
 .../point_type_converter/convert.py           | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/point_type_converter/point_type_converter/convert.py b/point_type_converter/point_type_converter/convert.py
index 209b473..ca25989 100644
--- a/point_type_converter/point_type_converter/convert.py
+++ b/point_type_converter/point_type_converter/convert.py
@@ -121,13 +121,9 @@ def split(collection, chunk_size):
     return tuple(collection[i:i+m] for i in range(0, n, m))
 
 
-def find_indices(fields, retained_names):
-    return [i for i in range(len(fields)) if fields[i].name in retained_names]
-
-
 def filter_point_data(point_tuples, input_fields, output_fields):
-    output_names = {f.name for f in output_fields}
-    indices = find_indices(input_fields, output_names)
+    input_names = [f.name for f in input_fields]
+    indices = [input_names.index(f.name) for f in output_fields]
     return tuple(tuple(chunk[i] for i in indices) for chunk in point_tuples)
 
 
@@ -181,19 +177,21 @@ class PointTypeConverter(Node):
             PointCloud2, '/points_converted', reliable_keep_all())
 
     def callback(self, input_cloud):
-        input_fields = input_cloud.fields
-        input_fields.append(make_point_field('padding', 12, np.float32, 1))
+        output_fields = make_fields()
+        copied_fields = [f for f in output_fields if f.name != 'padding']
+
+        copied_names = {f.name for f in copied_fields}
+        input_fields = [f for f in input_cloud.fields if f.name in copied_names]
         input_fields = sorted(input_fields, key=lambda f: f.offset)
         unpacked = unpack_point_bytes(
             input_cloud.data, input_fields,
             input_cloud.point_step, input_cloud.is_bigendian)
 
-        output_fields = make_fields()
-        unpacked = tuple(c for c in unpacked if nonzero(c))
-        filtered = filter_point_data(unpacked, input_fields, output_fields)
+        filtered = filter_point_data(unpacked, input_fields, copied_fields)
+        filtered = tuple(c for c in filtered if nonzero(c))
 
         data = pack_point_data(
-            filtered, output_fields, output_point_step, False)
+            filtered, copied_fields, output_point_step, False)
 
         output_cloud = PointCloud2()
         output_cloud.header = input_cloud.header
-- 
2.43.0


From 18c4a43f9f389a039beff5c23b8e5b585918709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:33 +0000
Subject: [PATCH 22/22] fix: a point cloud that cannot be converted ended the
 converter

---
 .../point_type_converter/convert.py              | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/point_type_converter/point_type_converter/convert.py b/point_type_converter/point_type_converter/convert.py
index ca25989..917b711 100644
--- a/point_type_converter/point_type_converter/convert.py
+++ b/point_type_converter/point_type_converter/convert.py
@@ -177,6 +177,20 @@ class PointTypeConverter(Node):
             PointCloud2, '/points_converted', reliable_keep_all())
 
     def callback(self, input_cloud):
+        try:
+            output_cloud = self.convert(input_cloud)
+        except (AssertionError, ArithmeticError, LookupError,
+                ValueError, struct.error) as e:
+            self.get_logger().error(f'The point cloud cannot be converted: {e}')
+            return
+
+        self.publisher.publish(output_cloud)
+
+    def convert(self, input_cloud):
+        n_points = input_cloud.height * input_cloud.width
+        if len(input_cloud.data) != n_points * input_cloud.point_step:
+            raise ValueError('Data size must fit the number of points')
+
         output_fields = make_fields()
         copied_fields = [f for f in output_fields if f.name != 'padding']
 
@@ -207,7 +221,7 @@ class PointTypeConverter(Node):
         output_cloud.data = toarray(data)
         output_cloud.is_dense = True
 
-        self.publisher.publish(output_cloud)
+        return output_cloud
 
 
 def main(args=None):
-- 
2.43.0

