From 93731ec12bb9abc6de4714d9212329dbc899fbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 01/50] fix: rot2rpy roll at pitch of exactly -90 degrees had
 the wrong sign

---
 ov_core/src/utils/quat_ops.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ov_core/src/utils/quat_ops.h b/ov_core/src/utils/quat_ops.h
index 6b1e7c3..feea8c2 100644
--- a/ov_core/src/utils/quat_ops.h
+++ b/ov_core/src/utils/quat_ops.h
@@ -554,7 +554,7 @@ inline Eigen::Matrix<double, 3, 1> rot2rpy(const Eigen::Matrix<double, 3, 3> &ro
     rpy(0, 0) = atan2(rot(2, 1) / cos(rpy(1, 0)), rot(2, 2) / cos(rpy(1, 0)));
   } else {
     rpy(2, 0) = 0;
-    rpy(0, 0) = atan2(rot(0, 1), rot(1, 1));
+    rpy(0, 0) = atan2(-rot(1, 2), rot(1, 1));
   }
   return rpy;
 }
-- 
2.43.0


From bf17396c0862682fe10f87164139db6204396b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 02/50] fix: Landmark::get_xyz returned the current instead of
 the first estimate for two anchored representations

---
 ov_core/src/types/Landmark.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ov_core/src/types/Landmark.cpp b/ov_core/src/types/Landmark.cpp
index 4d20e4e..6eea84d 100644
--- a/ov_core/src/types/Landmark.cpp
+++ b/ov_core/src/types/Landmark.cpp
@@ -46,14 +46,15 @@ Eigen::Matrix<double, 3, 1> Landmark::get_xyz(bool getfej) const {
   // CASE: Anchored MSCKF inverse depth feature representation
   if (_feat_representation == LandmarkRepresentation::Representation::ANCHORED_MSCKF_INVERSE_DEPTH) {
     Eigen::Matrix<double, 3, 1> p_FinA;
-    Eigen::Matrix<double, 3, 1> p_invFinA = value();
+    Eigen::Matrix<double, 3, 1> p_invFinA = (getfej) ? fej() : value();
     p_FinA << (1 / p_invFinA(2)) * p_invFinA(0), (1 / p_invFinA(2)) * p_invFinA(1), 1 / p_invFinA(2);
     return p_FinA;
   }
 
   // CASE: Estimate single depth of the feature using the initial bearing
   if (_feat_representation == LandmarkRepresentation::Representation::ANCHORED_INVERSE_DEPTH_SINGLE) {
-    // if(getfej) return 1.0/fej()(0)*uv_norm_zero_fej;
+    if (getfej)
+      return 1.0 / fej()(0) * uv_norm_zero_fej;
     return 1.0 / value()(0) * uv_norm_zero;
   }
 
-- 
2.43.0


From 86bcdd332a5cf139c2f5db9111a342967f7f476c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 03/50] fix: CamEqui Jacobian was zero at the optical axis

---
 ov_core/src/cam/CamEqui.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ov_core/src/cam/CamEqui.h b/ov_core/src/cam/CamEqui.h
index df72717..6b14951 100644
--- a/ov_core/src/cam/CamEqui.h
+++ b/ov_core/src/cam/CamEqui.h
@@ -184,7 +184,7 @@ public:
 
     // Jacobian of "normalized" pixel to normalized pixel
     Eigen::Matrix<double, 2, 2> dxy_dxyn = Eigen::Matrix<double, 2, 2>::Zero();
-    dxy_dxyn << theta_d * inv_r, 0, 0, theta_d * inv_r;
+    dxy_dxyn << cdist, 0, 0, cdist;
 
     // Jacobian of "normalized" pixel to r
     Eigen::Matrix<double, 2, 1> dxy_dr = Eigen::Matrix<double, 2, 1>::Zero();
-- 
2.43.0


From ad0ceddf8f3dc1890585b4aadace0834a782c93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 04/50] fix: CpiV2 closed-form velocity Jacobian had the wrong
 sign on the gravity term of its first column

---
 ov_core/src/cpi/CpiV2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ov_core/src/cpi/CpiV2.cpp b/ov_core/src/cpi/CpiV2.cpp
index 10e2806..18e9a84 100644
--- a/ov_core/src/cpi/CpiV2.cpp
+++ b/ov_core/src/cpi/CpiV2.cpp
@@ -230,7 +230,7 @@ void CpiV2::feed_IMU(double t_0, double t_1, Eigen::Matrix<double, 3, 1> w_m_0,
       H_al * skew_x((J_save * e_3)) * g_tau;
   J_b.block(0, 0, 3, 1) +=
       (d_R_bw_1 * Beta_arg + R_tau12k * (df_3_dbw_1 * w_x - f_3 * e_1x + df_4_dbw_1 * w_x_2 - f_4 * (e_1x * w_x + w_x * e_1x))) * a_hat -
-      -H_be * skew_x((J_save * e_1)) * g_tau;
+      H_be * skew_x((J_save * e_1)) * g_tau;
   J_b.block(0, 1, 3, 1) +=
       (d_R_bw_2 * Beta_arg + R_tau12k * (df_3_dbw_2 * w_x - f_3 * e_2x + df_4_dbw_2 * w_x_2 - f_4 * (e_2x * w_x + w_x * e_2x))) * a_hat -
       H_be * skew_x((J_save * e_2)) * g_tau;
-- 
2.43.0


From 093f34b887a8b9f5b7ba42b0fee04e8e41139217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:55 +0000
Subject: [PATCH 05/50] fix: generic prior constant term must satisfy sqrtI^T *
 b = prior_grad

---
 ov_init/src/ceres/Factor_GenericPrior.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ov_init/src/ceres/Factor_GenericPrior.cpp b/ov_init/src/ceres/Factor_GenericPrior.cpp
index 96fa034..aaa7763 100644
--- a/ov_init/src/ceres/Factor_GenericPrior.cpp
+++ b/ov_init/src/ceres/Factor_GenericPrior.cpp
@@ -64,8 +64,7 @@ Factor_GenericPrior::Factor_GenericPrior(const Eigen::MatrixXd &x_lin_, const st
   // Comes from the form: cost = A * (x - x_lin) + b
   Eigen::LLT<Eigen::MatrixXd> lltOfI(prior_Info);
   sqrtI = lltOfI.matrixL().transpose();
-  Eigen::MatrixXd I = Eigen::MatrixXd::Identity(prior_Info.rows(), prior_Info.rows());
-  b = sqrtI.triangularView<Eigen::Upper>().solve(I) * prior_grad;
+  b = sqrtI.transpose().triangularView<Eigen::Lower>().solve(prior_grad);
 
   // Check that we have a valid matrix that we can get the information of
   if (std::isnan(prior_Info.norm()) || std::isnan(sqrtI.norm()) || std::isnan(b.norm())) {
-- 
2.43.0


From 68a9f0319b063cb2ea291490b47f234ccdae12c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 06/50] fix: compute_disparity divided by zero instead of
 returning when there are no common tracks

---
 ov_core/src/feat/FeatureHelper.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ov_core/src/feat/FeatureHelper.h b/ov_core/src/feat/FeatureHelper.h
index db35c55..b038383 100644
--- a/ov_core/src/feat/FeatureHelper.h
+++ b/ov_core/src/feat/FeatureHelper.h
@@ -91,6 +91,7 @@ public:
       disp_mean = -1;
       disp_var = -1;
       total_feats = 0;
+      return;
     }
 
     // Compute mean and standard deviation in respect to it
@@ -164,6 +165,7 @@ public:
       disp_mean = -1;
       disp_var = -1;
       total_feats = 0;
+      return;
     }
 
     // Compute mean and standard deviation in respect to it
-- 
2.43.0


From 77bdcb979e0fb078f5ec15da5e819409cb71eb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 07/50] fix: timing file loaders read out of range on blank and
 incomplete lines

---
 ov_eval/src/utils/Loader.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ov_eval/src/utils/Loader.cpp b/ov_eval/src/utils/Loader.cpp
index d44b31d..797d224 100644
--- a/ov_eval/src/utils/Loader.cpp
+++ b/ov_eval/src/utils/Loader.cpp
@@ -287,6 +287,10 @@ void Loader::load_timing_flamegraph(std::string path, std::vector<std::string> &
       vec.push_back(std::atof(field.c_str()));
     }
 
+    // Skip blank lines
+    if (vec.empty())
+      continue;
+
     // Create eigen vector
     Eigen::VectorXd temp(vec.size() - 1);
     for (size_t i = 1; i < vec.size(); i++) {
@@ -351,6 +355,10 @@ void Loader::load_timing_percent(std::string path, std::vector<double> &times, s
       vec.push_back(std::atof(field.c_str()));
     }
 
+    // Only a valid line if we have the timestamp and the summed values
+    if (vec.size() < 4)
+      continue;
+
     // Create eigen vector
     Eigen::VectorXd temp(vec.size());
     for (size_t i = 0; i < vec.size(); i++) {
-- 
2.43.0


From bc81a66cd9f17672349d42b93f422078fd2b1747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 08/50] fix: a blank line in a groundtruth file became an
 all-zero state at time zero

---
 ov_core/src/utils/dataset_reader.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ov_core/src/utils/dataset_reader.h b/ov_core/src/utils/dataset_reader.h
index 01589e5..6b4e654 100644
--- a/ov_core/src/utils/dataset_reader.h
+++ b/ov_core/src/utils/dataset_reader.h
@@ -81,6 +81,9 @@ public:
 
     // Loop through each line in the file
     while (std::getline(file, line)) {
+      // Skip blank lines
+      if (line.empty())
+        continue;
       // Loop variables
       int i = 0;
       std::istringstream s(line);
-- 
2.43.0


From e0acf069afec16bfdff1a2ba921938b3c53aaeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:46 +0000
Subject: [PATCH 09/50] fix: Statistics::calculate accumulated the rmse of
 earlier calls

---
 ov_eval/src/utils/Statistics.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ov_eval/src/utils/Statistics.h b/ov_eval/src/utils/Statistics.h
index bd4fe90..6f0ce59 100644
--- a/ov_eval/src/utils/Statistics.h
+++ b/ov_eval/src/utils/Statistics.h
@@ -99,6 +99,7 @@ public:
 
     // Compute mean and rmse
     mean = 0;
+    rmse = 0;
     for (size_t i = 0; i < values_sorted.size(); i++) {
       assert(!std::isnan(values_sorted.at(i)));
       mean += values_sorted.at(i);
-- 
2.43.0


From 8d34dbb92b3e33d32ed862f82eef1add9e2f5f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:46 +0000
Subject: [PATCH 10/50] fix: trajectory alignment ignored the number of poses
 to use

---
 ov_eval/src/alignment/AlignTrajectory.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ov_eval/src/alignment/AlignTrajectory.cpp b/ov_eval/src/alignment/AlignTrajectory.cpp
index 0cfdd1f..4ddff63 100644
--- a/ov_eval/src/alignment/AlignTrajectory.cpp
+++ b/ov_eval/src/alignment/AlignTrajectory.cpp
@@ -93,7 +93,7 @@ void AlignTrajectory::align_posyaw(const std::vector<Eigen::Matrix<double, 7, 1>
     // Get just position vectors
     assert(!traj_es.empty());
     std::vector<Eigen::Vector3d> pos_est, pos_gt;
-    for (size_t i = 0; i < traj_es.size() && i < traj_gt.size(); i++) {
+    for (size_t i = 0; i < traj_es.size() && i < traj_gt.size() && (n_aligned < 0 || (int)i < n_aligned); i++) {
       pos_est.push_back(traj_es.at(i).block(0, 0, 3, 1));
       pos_gt.push_back(traj_gt.at(i).block(0, 0, 3, 1));
     }
@@ -135,7 +135,7 @@ void AlignTrajectory::align_se3(const std::vector<Eigen::Matrix<double, 7, 1>> &
     // Get just position vectors
     assert(!traj_es.empty());
     std::vector<Eigen::Vector3d> pos_est, pos_gt;
-    for (size_t i = 0; i < traj_es.size() && i < traj_gt.size(); i++) {
+    for (size_t i = 0; i < traj_es.size() && i < traj_gt.size() && (n_aligned < 0 || (int)i < n_aligned); i++) {
       pos_est.push_back(traj_es.at(i).block(0, 0, 3, 1));
       pos_gt.push_back(traj_gt.at(i).block(0, 0, 3, 1));
     }
@@ -156,7 +156,7 @@ void AlignTrajectory::align_sim3(const std::vector<Eigen::Matrix<double, 7, 1>>
   // Get just position vectors
   assert(!traj_es.empty());
   std::vector<Eigen::Vector3d> pos_est, pos_gt;
-  for (size_t i = 0; i < traj_es.size() && i < traj_gt.size(); i++) {
+  for (size_t i = 0; i < traj_es.size() && i < traj_gt.size() && (n_aligned < 0 || (int)i < n_aligned); i++) {
     pos_est.push_back(traj_es.at(i).block(0, 0, 3, 1));
     pos_gt.push_back(traj_gt.at(i).block(0, 0, 3, 1));
   }
-- 
2.43.0


From 9b253604222bc73e230293a0f676aabd8426c7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 11/50] fix: a non-numeric value for a numeric option was
 silently loaded as the largest number

---
 ov_core/src/utils/opencv_yaml_parse.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ov_core/src/utils/opencv_yaml_parse.h b/ov_core/src/utils/opencv_yaml_parse.h
index 3ee9814..70d2211 100644
--- a/ov_core/src/utils/opencv_yaml_parse.h
+++ b/ov_core/src/utils/opencv_yaml_parse.h
@@ -368,8 +368,12 @@ private:
     }
 
     // Now try to get it from the config
+    // NOTE: reading a non-numeric node as a number does not throw, but gives the largest number of that type
     try {
-      file_node[node_name] >> node_result;
+      const cv::FileNode node_value = file_node[node_name];
+      if (std::is_arithmetic<T>::value && !node_value.isInt() && !node_value.isReal())
+        throw std::runtime_error("node is not a number");
+      node_value >> node_result;
     } catch (...) {
       if (required) {
         PRINT_WARNING(YELLOW "unable to parse %s node of type [%s] in the config file!\n" RESET, node_name.c_str(),
-- 
2.43.0


From ef8b128c41a7426f55874ac7e99ec1baa3d7994c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 12/50] fix: an invalid feature representation was accepted as
 UNKNOWN

---
 ov_msckf/src/state/StateOptions.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ov_msckf/src/state/StateOptions.h b/ov_msckf/src/state/StateOptions.h
index 95836e9..f55b450 100644
--- a/ov_msckf/src/state/StateOptions.h
+++ b/ov_msckf/src/state/StateOptions.h
@@ -136,6 +136,12 @@ struct StateOptions {
       std::string rep3 = ov_type::LandmarkRepresentation::as_string(feat_rep_aruco);
       parser->parse_config("feat_rep_aruco", rep3);
       feat_rep_aruco = ov_type::LandmarkRepresentation::from_string(rep3);
+      if (feat_rep_msckf == ov_type::LandmarkRepresentation::Representation::UNKNOWN ||
+          feat_rep_slam == ov_type::LandmarkRepresentation::Representation::UNKNOWN ||
+          feat_rep_aruco == ov_type::LandmarkRepresentation::Representation::UNKNOWN) {
+        PRINT_ERROR(RED "invalid feature representation: %s, %s, %s (msckf, slam, aruco)\n" RESET, rep1.c_str(), rep2.c_str(), rep3.c_str());
+        std::exit(EXIT_FAILURE);
+      }
 
       // IMU model
       std::string imu_model_str = "kalibr";
-- 
2.43.0


From b5aba2bfd927591fece339cc897dd065d91d9fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 13/50] fix: missing arguments of the mask size error message

---
 ov_msckf/src/core/VioManagerOptions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ov_msckf/src/core/VioManagerOptions.h b/ov_msckf/src/core/VioManagerOptions.h
index 0df7d15..39cb936 100644
--- a/ov_msckf/src/core/VioManagerOptions.h
+++ b/ov_msckf/src/core/VioManagerOptions.h
@@ -295,8 +295,8 @@ struct VioManagerOptions {
           if (mask.cols != camera_intrinsics.at(i)->w() || mask.rows != camera_intrinsics.at(i)->h()) {
             PRINT_ERROR(RED "VioManager(): mask size does not match camera!\n" RESET);
             PRINT_ERROR(RED "\t- mask%d - %s\n" RESET, i, total_mask_path.c_str());
-            PRINT_ERROR(RED "\t- mask%d - %d x %d\n" RESET, mask.cols, mask.rows);
-            PRINT_ERROR(RED "\t- cam%d - %d x %d\n" RESET, camera_intrinsics.at(i)->w(), camera_intrinsics.at(i)->h());
+            PRINT_ERROR(RED "\t- mask%d - %d x %d\n" RESET, i, mask.cols, mask.rows);
+            PRINT_ERROR(RED "\t- cam%d - %d x %d\n" RESET, i, camera_intrinsics.at(i)->w(), camera_intrinsics.at(i)->h());
             std::exit(EXIT_FAILURE);
           }
         }
-- 
2.43.0


From 07d73a0fc4f866e4407ba31770fd63107c34d70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 14/50] fix: extrapolating past a repeated last inertial
 reading divided by zero

---
 ov_msckf/src/state/Propagator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ov_msckf/src/state/Propagator.cpp b/ov_msckf/src/state/Propagator.cpp
index 47879ec..52ca7e4 100644
--- a/ov_msckf/src/state/Propagator.cpp
+++ b/ov_msckf/src/state/Propagator.cpp
@@ -359,7 +359,11 @@ std::vector<ov_core::ImuData> Propagator::select_imu_readings(const std::vector<
     if (warn)
       PRINT_DEBUG(YELLOW "Propagator::select_imu_readings(): Missing inertial measurements to propagate with (%f sec missing)!\n" RESET,
                   (time1 - imu_data.at(imu_data.size() - 1).timestamp));
-    ov_core::ImuData data = interpolate_data(imu_data.at(imu_data.size() - 2), imu_data.at(imu_data.size() - 1), time1);
+    // NOTE: a repeated last reading has no slope (zero dt), so we extrapolate from the last reading before it
+    size_t prev = imu_data.size() - 2;
+    while (prev > 0 && imu_data.at(prev).timestamp >= imu_data.at(imu_data.size() - 1).timestamp)
+      prev--;
+    ov_core::ImuData data = interpolate_data(imu_data.at(prev), imu_data.at(imu_data.size() - 1), time1);
     prop_data.push_back(data);
     // PRINT_DEBUG("propagation #%d = CASE 3.4 = %.3f => %.3f\n", (int)(imu_data.size() - 2), data.timestamp - prop_data.at(0).timestamp,
     // data.timestamp - time0);
-- 
2.43.0


From e03a135e505ae6e62eeb41d40565ff409ab85ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:00 +0000
Subject: [PATCH 15/50] fix: discrete transition lost Dw in the accelerometer
 intrinsic Jacobian of the orientation

---
 ov_msckf/src/state/Propagator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ov_msckf/src/state/Propagator.cpp b/ov_msckf/src/state/Propagator.cpp
index 52ca7e4..faecce2 100644
--- a/ov_msckf/src/state/Propagator.cpp
+++ b/ov_msckf/src/state/Propagator.cpp
@@ -929,7 +929,7 @@ void Propagator::compute_F_and_G_discrete(std::shared_ptr<State> state, double d
   // begin to add the state transition matrix for the acc intrinsics Da part
   if (Da_id != -1) {
     Eigen::MatrixXd H_Da = compute_H_Da(state, a_uncorrected);
-    F.block(th_id, Da_id, 3, state->_calib_imu_da->size()) = -dR_ktok1 * Jr_ktok1 * dt * R_wtoI * Tg * R_atoI * H_Da;
+    F.block(th_id, Da_id, 3, state->_calib_imu_da->size()) = -dR_ktok1 * Jr_ktok1 * dt * R_wtoI * Dw * Tg * R_atoI * H_Da;
     F.block(p_id, Da_id, 3, state->_calib_imu_da->size()) = 0.5 * R_k.transpose() * dt * dt * R_atoI * H_Da;
     F.block(v_id, Da_id, 3, state->_calib_imu_da->size()) = R_k.transpose() * dt * R_atoI * H_Da;
     F.block(Da_id, Da_id, state->_calib_imu_da->size(), state->_calib_imu_da->size()).setIdentity();
-- 
2.43.0


From f074fe22fcf08f1d16c642779cd6ab3ed3868662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 16/50] fix: fast propagation added the time offset to a time
 that is already in the IMU clock

---
 ov_msckf/src/state/Propagator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ov_msckf/src/state/Propagator.cpp b/ov_msckf/src/state/Propagator.cpp
index faecce2..dd72697 100644
--- a/ov_msckf/src/state/Propagator.cpp
+++ b/ov_msckf/src/state/Propagator.cpp
@@ -151,7 +151,7 @@ bool Propagator::fast_state_propagate(std::shared_ptr<State> state, double times
 
   // First lets construct an IMU vector of measurements we need
   double time0 = cache_state_time + cache_t_off;
-  double time1 = timestamp + cache_t_off;
+  double time1 = timestamp; // this is already in the IMU clock
   std::vector<ov_core::ImuData> prop_data;
   {
     std::lock_guard<std::mutex> lck(imu_data_mtx);
-- 
2.43.0


From a07ef175d8c7bd0cb63fe281a11f4bb1d1423536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 17/50] fix: fast propagation to a time not after the cached
 one integrated nothing or backwards

---
 ov_msckf/src/state/Propagator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ov_msckf/src/state/Propagator.cpp b/ov_msckf/src/state/Propagator.cpp
index dd72697..3a7a7f8 100644
--- a/ov_msckf/src/state/Propagator.cpp
+++ b/ov_msckf/src/state/Propagator.cpp
@@ -140,8 +140,13 @@ void Propagator::propagate_and_clone(std::shared_ptr<State> state, double timest
 bool Propagator::fast_state_propagate(std::shared_ptr<State> state, double timestamp, Eigen::Matrix<double, 13, 1> &state_plus,
                                       Eigen::Matrix<double, 12, 12> &covariance) {
 
+  // We can only predict forward from the current filter state
+  if (timestamp <= state->_timestamp + state->_calib_dt_CAMtoIMU->value()(0))
+    return false;
+
   // First we will store the current calibration / estimates of the state
-  if (!cache_imu_valid) {
+  // NOTE: if the cache has already been moved past this timestamp, then we need to start again from the state
+  if (!cache_imu_valid || timestamp <= cache_state_time + cache_t_off) {
     cache_state_time = state->_timestamp;
     cache_state_est = state->_imu->value();
     cache_state_covariance = StateHelper::get_marginal_covariance(state, {state->_imu});
-- 
2.43.0


From 129007e7afe13d4a380ba012e857382350b0ad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 18/50] fix: fast propagation local velocity covariance ignored
 the orientation uncertainty

---
 ov_msckf/src/state/Propagator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ov_msckf/src/state/Propagator.cpp b/ov_msckf/src/state/Propagator.cpp
index 3a7a7f8..8da2ede 100644
--- a/ov_msckf/src/state/Propagator.cpp
+++ b/ov_msckf/src/state/Propagator.cpp
@@ -263,6 +263,7 @@ bool Propagator::fast_state_propagate(std::shared_ptr<State> state, double times
   // TODO: it should be dependent on the state bias, thus correlated with the pose..
   covariance.setZero();
   Eigen::Matrix<double, 15, 15> Phi = Eigen::Matrix<double, 15, 15>::Identity();
+  Phi.block(6, 0, 3, 3) = skew_x(state_plus.block(7, 0, 3, 1));
   Phi.block(6, 6, 3, 3) = quat_2_Rot(q_Gtoi);
   Eigen::MatrixXd covariance_tmp = Phi * cache_state_covariance * Phi.transpose();
   covariance.block(0, 0, 9, 9) = covariance_tmp.block(0, 0, 9, 9);
-- 
2.43.0


From af2e443998c7e03db47f50bbd0271d20128713ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 19/50] fix: UpdaterSLAM: use the aruco options for all four
 corners of every tag

---
 ov_msckf/src/update/UpdaterSLAM.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ov_msckf/src/update/UpdaterSLAM.cpp b/ov_msckf/src/update/UpdaterSLAM.cpp
index a769d01..c67290a 100644
--- a/ov_msckf/src/update/UpdaterSLAM.cpp
+++ b/ov_msckf/src/update/UpdaterSLAM.cpp
@@ -158,7 +158,7 @@ void UpdaterSLAM::delayed_init(std::shared_ptr<State> state, std::vector<std::sh
 
     // If we are using single inverse depth, then it is equivalent to using the msckf inverse depth
     auto feat_rep =
-        ((int)feat.featid < state->_options.max_aruco_features) ? state->_options.feat_rep_aruco : state->_options.feat_rep_slam;
+        ((int)feat.featid <= 4 * state->_options.max_aruco_features) ? state->_options.feat_rep_aruco : state->_options.feat_rep_slam;
     feat.feat_representation = feat_rep;
     if (feat_rep == LandmarkRepresentation::Representation::ANCHORED_INVERSE_DEPTH_SINGLE) {
       feat.feat_representation = LandmarkRepresentation::Representation::ANCHORED_MSCKF_INVERSE_DEPTH;
@@ -224,12 +224,12 @@ void UpdaterSLAM::delayed_init(std::shared_ptr<State> state, std::vector<std::sh
 
     // Measurement noise matrix
     double sigma_pix_sq =
-        ((int)feat.featid < state->_options.max_aruco_features) ? _options_aruco.sigma_pix_sq : _options_slam.sigma_pix_sq;
+        ((int)feat.featid <= 4 * state->_options.max_aruco_features) ? _options_aruco.sigma_pix_sq : _options_slam.sigma_pix_sq;
     Eigen::MatrixXd R = sigma_pix_sq * Eigen::MatrixXd::Identity(res.rows(), res.rows());
 
     // Try to initialize, delete new pointer if we failed
     double chi2_multipler =
-        ((int)feat.featid < state->_options.max_aruco_features) ? _options_aruco.chi2_multipler : _options_slam.chi2_multipler;
+        ((int)feat.featid <= 4 * state->_options.max_aruco_features) ? _options_aruco.chi2_multipler : _options_slam.chi2_multipler;
     if (StateHelper::initialize(state, landmark, Hx_order, H_x, H_f, R, res, chi2_multipler)) {
       state->_features_SLAM.insert({(*it2)->featid, landmark});
       (*it2)->to_delete = true;
@@ -390,7 +390,7 @@ void UpdaterSLAM::update(std::shared_ptr<State> state, std::vector<std::shared_p
     Eigen::MatrixXd P_marg = StateHelper::get_marginal_covariance(state, Hxf_order);
     Eigen::MatrixXd S = H_xf * P_marg * H_xf.transpose();
     double sigma_pix_sq =
-        ((int)feat.featid < state->_options.max_aruco_features) ? _options_aruco.sigma_pix_sq : _options_slam.sigma_pix_sq;
+        ((int)feat.featid <= 4 * state->_options.max_aruco_features) ? _options_aruco.sigma_pix_sq : _options_slam.sigma_pix_sq;
     S.diagonal() += sigma_pix_sq * Eigen::VectorXd::Ones(S.rows());
     double chi2 = res.dot(S.llt().solve(res));
 
@@ -406,9 +406,9 @@ void UpdaterSLAM::update(std::shared_ptr<State> state, std::vector<std::shared_p
 
     // Check if we should delete or not
     double chi2_multipler =
-        ((int)feat.featid < state->_options.max_aruco_features) ? _options_aruco.chi2_multipler : _options_slam.chi2_multipler;
+        ((int)feat.featid <= 4 * state->_options.max_aruco_features) ? _options_aruco.chi2_multipler : _options_slam.chi2_multipler;
     if (chi2 > chi2_multipler * chi2_check) {
-      if ((int)feat.featid < state->_options.max_aruco_features) {
+      if ((int)feat.featid <= 4 * state->_options.max_aruco_features) {
         PRINT_WARNING(YELLOW "[SLAM-UP]: rejecting aruco tag %d for chi2 thresh (%.3f > %.3f)\n" RESET, (int)feat.featid, chi2,
                       chi2_multipler * chi2_check);
       } else {
@@ -420,7 +420,7 @@ void UpdaterSLAM::update(std::shared_ptr<State> state, std::vector<std::shared_p
     }
 
     // Debug print when we are going to update the aruco tags
-    if ((int)feat.featid < state->_options.max_aruco_features) {
+    if ((int)feat.featid <= 4 * state->_options.max_aruco_features) {
       PRINT_DEBUG("[SLAM-UP]: accepted aruco tag %d for chi2 thresh (%.3f < %.3f)\n", (int)feat.featid, chi2, chi2_multipler * chi2_check);
     }
 
-- 
2.43.0


From 1c58352b3c34976a819e14044c55f63dad983363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 20/50] fix: InertialInitializer: always use the static
 initializer when the disparity check is disabled

---
 ov_init/src/init/InertialInitializer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ov_init/src/init/InertialInitializer.cpp b/ov_init/src/init/InertialInitializer.cpp
index 5f9efeb..86699a2 100644
--- a/ov_init/src/init/InertialInitializer.cpp
+++ b/ov_init/src/init/InertialInitializer.cpp
@@ -103,9 +103,10 @@ bool InertialInitializer::initialize(double &timestamp, Eigen::MatrixXd &covaria
 
   // Compute the disparity of the system at the current timestep
   // If disparity is zero or negative we will always use the static initializer
+  bool use_disparity = (params.init_max_disparity > 0);
   bool disparity_detected_moving_1to0 = false;
   bool disparity_detected_moving_2to1 = false;
-  if (params.init_max_disparity > 0) {
+  if (use_disparity) {
 
     // Get the disparity statistics from this image to the previous
     // Only compute the disparity for the oldest half of the initialization period
@@ -133,9 +134,10 @@ bool InertialInitializer::initialize(double &timestamp, Eigen::MatrixXd &covaria
   // Use our static initializer!
   // CASE1: if our disparity says we were static in last window and have moved in the newest, we have a jerk
   // CASE2: if both disparities are below the threshold, then the platform has been stationary during both periods
+  // CASE3: if the disparity is not used, then the static initializer will check only the inertial readings
   bool has_jerk = (!disparity_detected_moving_1to0 && disparity_detected_moving_2to1);
   bool is_still = (!disparity_detected_moving_1to0 && !disparity_detected_moving_2to1);
-  if (((has_jerk && wait_for_jerk) || (is_still && !wait_for_jerk)) && params.init_imu_thresh > 0.0) {
+  if (((has_jerk && wait_for_jerk) || (is_still && !wait_for_jerk) || !use_disparity) && params.init_imu_thresh > 0.0) {
     PRINT_DEBUG(GREEN "[init]: USING STATIC INITIALIZER METHOD!\n" RESET);
     return init_static->initialize(timestamp, covariance, order, t_imu, wait_for_jerk);
   } else if (params.init_dyn_use && !is_still) {
-- 
2.43.0


From 60baed5c8a76be22187d73d210f70477c71a86a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 21/50] fix: TrackAruco: corner ids of the tag with the maximum
 id collided with those of tag zero

---
 ov_core/src/track/TrackAruco.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ov_core/src/track/TrackAruco.cpp b/ov_core/src/track/TrackAruco.cpp
index 953eaa3..567aad8 100644
--- a/ov_core/src/track/TrackAruco.cpp
+++ b/ov_core/src/track/TrackAruco.cpp
@@ -131,8 +131,8 @@ void TrackAruco::perform_tracking(double timestamp, const cv::Mat &imgin, size_t
 
   // Append to our feature database this new information
   for (size_t i = 0; i < ids_aruco[cam_id].size(); i++) {
-    // Skip if ID is greater then our max
-    if (ids_aruco[cam_id].at(i) > max_tag_id)
+    // Skip if ID is not below our max (its corner ids would be those of other tags)
+    if (ids_aruco[cam_id].at(i) >= max_tag_id)
       continue;
     // Assert we have 4 points (we will only use one of them)
     assert(corners[cam_id].at(i).size() == 4);
-- 
2.43.0


From b07716e89a6d3937883be4e2ef8857d4cc1473a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 22/50] fix: ZUPT must not accept an image older than the state

---
 ov_msckf/src/update/UpdaterZeroVelocity.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ov_msckf/src/update/UpdaterZeroVelocity.cpp b/ov_msckf/src/update/UpdaterZeroVelocity.cpp
index 3c55846..b69f977 100644
--- a/ov_msckf/src/update/UpdaterZeroVelocity.cpp
+++ b/ov_msckf/src/update/UpdaterZeroVelocity.cpp
@@ -70,8 +70,8 @@ bool UpdaterZeroVelocity::try_update(std::shared_ptr<State> state, double timest
     return false;
   }
 
-  // Return if the state is already at the desired time
-  if (state->_timestamp == timestamp) {
+  // Return if the state is already at the desired time (or past it, thus the image is out of order)
+  if (state->_timestamp >= timestamp) {
     last_zupt_state_timestamp = 0.0;
     return false;
   }
-- 
2.43.0


From 4e8ae81c22b27fbcace7b237b490cb1f6810b71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 23/50] fix: dynamic initialization aborted on too few IMU
 readings

---
 ov_init/src/dynamic/DynamicInitializer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ov_init/src/dynamic/DynamicInitializer.cpp b/ov_init/src/dynamic/DynamicInitializer.cpp
index dc48a11..d4ad0e3 100644
--- a/ov_init/src/dynamic/DynamicInitializer.cpp
+++ b/ov_init/src/dynamic/DynamicInitializer.cpp
@@ -175,7 +175,10 @@ bool DynamicInitializer::initialize(double &timestamp, Eigen::MatrixXd &covarian
   double time0_in_imu = oldest_camera_time + params.calib_camimu_dt;
   double time1_in_imu = newest_cam_time + params.calib_camimu_dt;
   std::vector<ov_core::ImuData> readings = InitializerHelper::select_imu_readings(*imu_data, time0_in_imu, time1_in_imu);
-  assert(readings.size() > 2);
+  if (readings.size() < 3) {
+    PRINT_WARNING(YELLOW "[init-d]: only %zu imu readings in the window (%d required)!!\n" RESET, readings.size(), 3);
+    return false;
+  }
   for (size_t k = 0; k < readings.size() - 1; k++) {
     auto imu0 = readings.at(k);
     auto imu1 = readings.at(k + 1);
-- 
2.43.0


From 429b22b2317f501cd8b923d0d0496ce2d9d93e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 24/50] fix: dynamic initialization crashed on a degenerate
 linear system

---
 ov_init/src/dynamic/DynamicInitializer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ov_init/src/dynamic/DynamicInitializer.cpp b/ov_init/src/dynamic/DynamicInitializer.cpp
index d4ad0e3..48dcfbf 100644
--- a/ov_init/src/dynamic/DynamicInitializer.cpp
+++ b/ov_init/src/dynamic/DynamicInitializer.cpp
@@ -404,6 +404,12 @@ bool DynamicInitializer::initialize(double &timestamp, Eigen::MatrixXd &covarian
   Eigen::MatrixXd d = Temp * b;
   Eigen::Matrix<double, 7, 1> coeff = InitializerHelper::compute_dongsi_coeff(D, d, params.gravity_mag);
 
+  // If the linear system is degenerate (e.g. a feature with a single measurement) there is no polynomial to solve
+  if (!coeff.allFinite()) {
+    PRINT_WARNING(YELLOW "[init-d]: linear system is degenerate, unable to recover the gravity!\n" RESET);
+    return false;
+  }
+
   // Create companion matrix of our polynomial
   // https://en.wikipedia.org/wiki/Companion_matrix
   assert(coeff(0) == 1);
-- 
2.43.0


From ba174ab3667548f94c53fc16dcd66cb46902bad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:44 +0000
Subject: [PATCH 25/50] fix: run_simulation starts the filter with the offset
 the filter holds

The simulator perturbs the estimator's camera-IMU time offset. The state's
time is in the camera clock as the filter knows it, so it is this offset
that has to be subtracted from the groundtruth time: otherwise the first
propagation asks for inertial readings from before the stream starts and
aborts whenever the perturbed offset is below the true one.
---
 ov_msckf/src/run_simulation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ov_msckf/src/run_simulation.cpp b/ov_msckf/src/run_simulation.cpp
index 7b5ee4e..40431a3 100644
--- a/ov_msckf/src/run_simulation.cpp
+++ b/ov_msckf/src/run_simulation.cpp
@@ -124,8 +124,8 @@ int main(int argc, char **argv) {
   }
 
   // Since the state time is in the camera frame of reference
-  // Subtract out the imu to camera time offset
-  imustate(0, 0) -= sim->get_true_parameters().calib_camimu_dt;
+  // Subtract out the imu to camera time offset (as the estimator knows it, which the simulator could have perturbed)
+  imustate(0, 0) -= params.calib_camimu_dt;
 
   // Initialize our filter with the groundtruth
   sys->initialize_with_gt(imustate);
-- 
2.43.0


From 02498e32e602bac2611fd82e6127bf86652e89c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:32 +0000
Subject: [PATCH 26/50] fix: keep the inertial reading before the requested
 time so that lost readings can be bridged

---
 ov_msckf/src/state/Propagator.h           | 3 ++-
 ov_msckf/src/update/UpdaterZeroVelocity.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ov_msckf/src/state/Propagator.h b/ov_msckf/src/state/Propagator.h
index 26b4af3..fa6bbba 100644
--- a/ov_msckf/src/state/Propagator.h
+++ b/ov_msckf/src/state/Propagator.h
@@ -82,7 +82,8 @@ public:
       return;
     auto it0 = imu_data.begin();
     while (it0 != imu_data.end()) {
-      if (it0->timestamp < oldest_time) {
+      // NOTE: keep the last one before this time, since if readings have been lost it is needed to interpolate at a later time
+      if (it0->timestamp < oldest_time && it0 + 1 != imu_data.end() && (it0 + 1)->timestamp <= oldest_time) {
         it0 = imu_data.erase(it0);
       } else {
         it0++;
diff --git a/ov_msckf/src/update/UpdaterZeroVelocity.h b/ov_msckf/src/update/UpdaterZeroVelocity.h
index 4b7f5f6..d1fee7e 100644
--- a/ov_msckf/src/update/UpdaterZeroVelocity.h
+++ b/ov_msckf/src/update/UpdaterZeroVelocity.h
@@ -98,7 +98,8 @@ public:
       return;
     auto it0 = imu_data.begin();
     while (it0 != imu_data.end()) {
-      if (it0->timestamp < oldest_time) {
+      // NOTE: keep the last one before this time, since if readings have been lost it is needed to interpolate at a later time
+      if (it0->timestamp < oldest_time && it0 + 1 != imu_data.end() && (it0 + 1)->timestamp <= oldest_time) {
         it0 = imu_data.erase(it0);
       } else {
         it0++;
-- 
2.43.0


From aade0e629592693197c94167cd59d663da8c36cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:03 +0000
Subject: [PATCH 27/50] fix: propagate from where a zero velocity update left
 the state

---
 ov_msckf/src/state/Propagator.h             | 9 +++++++++
 ov_msckf/src/update/UpdaterZeroVelocity.cpp | 1 +
 2 files changed, 10 insertions(+)

diff --git a/ov_msckf/src/state/Propagator.h b/ov_msckf/src/state/Propagator.h
index fa6bbba..8a9bc2b 100644
--- a/ov_msckf/src/state/Propagator.h
+++ b/ov_msckf/src/state/Propagator.h
@@ -73,6 +73,15 @@ public:
     clean_old_imu_measurements(oldest_time - 0.10);
   }
 
+  /**
+   * @brief Records the time offset the current state time refers to, if the state was moved forward in time without propagating it
+   * @param time_offset Time offset (t_imu = t_cam + calib_dt) which has been used to move the state
+   */
+  void set_last_prop_time_offset(double time_offset) {
+    last_prop_time_offset = time_offset;
+    have_last_prop_time_offset = true;
+  }
+
   /**
    * @brief This will remove any IMU measurements that are older then the given measurement time
    * @param oldest_time Time that we can discard measurements before (in IMU clock)
diff --git a/ov_msckf/src/update/UpdaterZeroVelocity.cpp b/ov_msckf/src/update/UpdaterZeroVelocity.cpp
index b69f977..ea67da8 100644
--- a/ov_msckf/src/update/UpdaterZeroVelocity.cpp
+++ b/ov_msckf/src/update/UpdaterZeroVelocity.cpp
@@ -275,6 +275,7 @@ bool UpdaterZeroVelocity::try_update(std::shared_ptr<State> state, double timest
     // Finally move the state time forward
     StateHelper::EKFUpdate(state, Hx_order, H, res, R);
     state->_timestamp = timestamp;
+    _prop->set_last_prop_time_offset(t_off_new);
 
   } else {
 
-- 
2.43.0


From 95a4bc23d648a98307653bcd5e65b964942557e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:49 +0000
Subject: [PATCH 28/50] fix: simulated measurements far outside of the image
 broke the covariance

---
 ov_core/src/track/TrackSIM.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ov_core/src/track/TrackSIM.cpp b/ov_core/src/track/TrackSIM.cpp
index dc1e618..25e66cb 100644
--- a/ov_core/src/track/TrackSIM.cpp
+++ b/ov_core/src/track/TrackSIM.cpp
@@ -48,6 +48,13 @@ void TrackSIM::feed_measurement_simulation(double timestamp, const std::vector<i
     // NOTE: ids by the number of aruoc tags we have specified as tracking
     for (const auto &feat : feats.at(i)) {
 
+      // Skip what no camera could have measured (i.e. not a number, or further out than the image is large)
+      // Otherwise the distortion models would be evaluated far outside of the range they are meant for
+      double w = camera_calib.at(cam_id)->w(), h = camera_calib.at(cam_id)->h();
+      if (!(std::abs(feat.second(0) - 0.5 * w) < 1.5 * w && std::abs(feat.second(1) - 0.5 * h) < 1.5 * h)) {
+        continue;
+      }
+
       // Get our id value
       size_t id = feat.first + currid;
 
-- 
2.43.0


From 646368702e14ea28d79e17aea6afbc11859037c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:56 +0000
Subject: [PATCH 29/50] fix: keep the inertial readings that a large or
 changing time offset needs

---
 ov_msckf/src/core/VioManager.cpp | 13 +++++++++----
 ov_msckf/src/state/Propagator.h  |  3 +++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ov_msckf/src/core/VioManager.cpp b/ov_msckf/src/core/VioManager.cpp
index 6a0d7b9..6bb1bca 100644
--- a/ov_msckf/src/core/VioManager.cpp
+++ b/ov_msckf/src/core/VioManager.cpp
@@ -170,6 +170,9 @@ void VioManager::feed_measurement_imu(const ov_core::ImuData &message) {
   double oldest_time = state->margtimestep();
   if (oldest_time > state->_timestamp) {
     oldest_time = -1;
+  } else {
+    // NOTE: the window is in the camera clock, and we will next propagate from the time offset we have propagated to
+    oldest_time += std::min(state->_calib_dt_CAMtoIMU->value()(0), propagator->get_last_prop_time_offset());
   }
   if (!is_initialized_vio) {
     oldest_time = message.timestamp - params.init_options.init_window_time + state->_calib_dt_CAMtoIMU->value()(0) - 0.10;
@@ -225,8 +228,9 @@ void VioManager::feed_measurement_simulation(double timestamp, const std::vector
     }
     if (did_zupt_update) {
       assert(state->_timestamp == timestamp);
-      propagator->clean_old_imu_measurements(timestamp + state->_calib_dt_CAMtoIMU->value()(0) - 0.10);
-      updaterZUPT->clean_old_imu_measurements(timestamp + state->_calib_dt_CAMtoIMU->value()(0) - 0.10);
+      double time_offset = std::min(state->_calib_dt_CAMtoIMU->value()(0), propagator->get_last_prop_time_offset());
+      propagator->clean_old_imu_measurements(timestamp + time_offset - 0.10);
+      updaterZUPT->clean_old_imu_measurements(timestamp + time_offset - 0.10);
       propagator->invalidate_cache();
       return;
     }
@@ -298,8 +302,9 @@ void VioManager::track_image_and_update(const ov_core::CameraData &message_const
     }
     if (did_zupt_update) {
       assert(state->_timestamp == message.timestamp);
-      propagator->clean_old_imu_measurements(message.timestamp + state->_calib_dt_CAMtoIMU->value()(0) - 0.10);
-      updaterZUPT->clean_old_imu_measurements(message.timestamp + state->_calib_dt_CAMtoIMU->value()(0) - 0.10);
+      double time_offset = std::min(state->_calib_dt_CAMtoIMU->value()(0), propagator->get_last_prop_time_offset());
+      propagator->clean_old_imu_measurements(message.timestamp + time_offset - 0.10);
+      updaterZUPT->clean_old_imu_measurements(message.timestamp + time_offset - 0.10);
       propagator->invalidate_cache();
       return;
     }
diff --git a/ov_msckf/src/state/Propagator.h b/ov_msckf/src/state/Propagator.h
index 8a9bc2b..94556a3 100644
--- a/ov_msckf/src/state/Propagator.h
+++ b/ov_msckf/src/state/Propagator.h
@@ -73,6 +73,9 @@ public:
     clean_old_imu_measurements(oldest_time - 0.10);
   }
 
+  /// Time offset which we have last propagated to
+  double get_last_prop_time_offset() { return last_prop_time_offset; }
+
   /**
    * @brief Records the time offset the current state time refers to, if the state was moved forward in time without propagating it
    * @param time_offset Time offset (t_imu = t_cam + calib_dt) which has been used to move the state
-- 
2.43.0


From 81d27ca59ad641c958ac4a6ef073f40de06139bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:43 +0000
Subject: [PATCH 30/50] fix: do not detect stereo features in the masked area
 of the right image

---
 ov_core/src/track/TrackKLT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ov_core/src/track/TrackKLT.cpp b/ov_core/src/track/TrackKLT.cpp
index d2fe388..e07e949 100644
--- a/ov_core/src/track/TrackKLT.cpp
+++ b/ov_core/src/track/TrackKLT.cpp
@@ -718,7 +718,7 @@ void TrackKLT::perform_detection_stereo(const std::vector<cv::Mat> &img0pyr, con
   float size_y1 = (float)img1pyr.at(0).rows / (float)grid_y;
   cv::Size size_grid1(grid_x, grid_y); // width x height
   cv::Mat grid_2d_grid1 = cv::Mat::zeros(size_grid1, CV_8UC1);
-  cv::Mat mask1_updated = mask0.clone();
+  cv::Mat mask1_updated = mask1.clone();
   it0 = pts1.begin();
   it1 = ids1.begin();
   while (it0 != pts1.end()) {
-- 
2.43.0


From 3daa52e1ac1b4b26c6272529823e7cc2bed94002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:43 +0000
Subject: [PATCH 31/50] fix: drop stereo tracks that left the left image on its
 right or lower side

---
 ov_core/src/track/TrackKLT.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ov_core/src/track/TrackKLT.cpp b/ov_core/src/track/TrackKLT.cpp
index e07e949..535b547 100644
--- a/ov_core/src/track/TrackKLT.cpp
+++ b/ov_core/src/track/TrackKLT.cpp
@@ -305,8 +305,8 @@ void TrackKLT::feed_stereo(const CameraData &message, size_t msg_id_left, size_t
   // Loop through all left points
   for (size_t i = 0; i < pts_left_new.size(); i++) {
     // Ensure we do not have any bad KLT tracks (i.e., points are negative)
-    if (pts_left_new.at(i).pt.x < 0 || pts_left_new.at(i).pt.y < 0 || (int)pts_left_new.at(i).pt.x > img_left.cols ||
-        (int)pts_left_new.at(i).pt.y > img_left.rows)
+    if (pts_left_new.at(i).pt.x < 0 || pts_left_new.at(i).pt.y < 0 || (int)pts_left_new.at(i).pt.x >= img_left.cols ||
+        (int)pts_left_new.at(i).pt.y >= img_left.rows)
       continue;
     // See if we have the same feature in the right
     bool found_right = false;
-- 
2.43.0


From 696b6298bb378770bcd251f4e6063f7639557b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 32/50] fix: overlay tracks of cameras with different image
 sizes on an existing image

---
 ov_core/src/track/TrackAruco.cpp | 2 +-
 ov_core/src/track/TrackBase.cpp  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ov_core/src/track/TrackAruco.cpp b/ov_core/src/track/TrackAruco.cpp
index 567aad8..7a473fe 100644
--- a/ov_core/src/track/TrackAruco.cpp
+++ b/ov_core/src/track/TrackAruco.cpp
@@ -217,7 +217,7 @@ void TrackAruco::display_active(cv::Mat &img_out, int r1, int g1, int b1, int r2
     if (image_new)
       cv::cvtColor(img_last_cache[pair.first], img_temp, cv::COLOR_GRAY2RGB);
     else
-      img_temp = img_out(cv::Rect(max_width * index_cam, 0, max_width, max_height));
+      img_temp = img_out(cv::Rect(max_width * index_cam, 0, pair.second.cols, pair.second.rows));
     // draw...
     if (!ids_aruco_cache[pair.first].empty())
       cv::aruco::drawDetectedMarkers(img_temp, corners_cache[pair.first], ids_aruco_cache[pair.first]);
diff --git a/ov_core/src/track/TrackBase.cpp b/ov_core/src/track/TrackBase.cpp
index e214c23..8be73b5 100644
--- a/ov_core/src/track/TrackBase.cpp
+++ b/ov_core/src/track/TrackBase.cpp
@@ -85,7 +85,7 @@ void TrackBase::display_active(cv::Mat &img_out, int r1, int g1, int b1, int r2,
     if (image_new)
       cv::cvtColor(img_last_cache[pair.first], img_temp, cv::COLOR_GRAY2RGB);
     else
-      img_temp = img_out(cv::Rect(max_width * index_cam, 0, max_width, max_height));
+      img_temp = img_out(cv::Rect(max_width * index_cam, 0, pair.second.cols, pair.second.rows));
     // draw, loop through all keypoints
     for (size_t i = 0; i < pts_last_cache[pair.first].size(); i++) {
       // Get bounding pts for our boxes
@@ -167,7 +167,7 @@ void TrackBase::display_history(cv::Mat &img_out, int r1, int g1, int b1, int r2
     if (image_new)
       cv::cvtColor(img_last_cache[pair.first], img_temp, cv::COLOR_GRAY2RGB);
     else
-      img_temp = img_out(cv::Rect(max_width * index_cam, 0, max_width, max_height));
+      img_temp = img_out(cv::Rect(max_width * index_cam, 0, pair.second.cols, pair.second.rows));
     // draw, loop through all keypoints
     for (size_t i = 0; i < ids_last_cache[pair.first].size(); i++) {
       // If a highlighted point, then put a nice box around it
-- 
2.43.0


From bb6fec755def78131922871402fb4f65f7d0b8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 33/50] fix: keep the minimum distance between stereo
 descriptor features

---
 ov_core/src/track/TrackDescriptor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ov_core/src/track/TrackDescriptor.cpp b/ov_core/src/track/TrackDescriptor.cpp
index 915873d..17fd0db 100644
--- a/ov_core/src/track/TrackDescriptor.cpp
+++ b/ov_core/src/track/TrackDescriptor.cpp
@@ -464,6 +464,10 @@ void TrackDescriptor::perform_detection_stereo(const cv::Mat &img0, const cv::Ma
     if (grid_2d_0.at<uint8_t>(y0_grid, x0_grid) > 127 || grid_2d_1.at<uint8_t>(y1_grid, x1_grid) > 127)
       continue;
 
+    // Else we are good, record that there is now a point here
+    grid_2d_0.at<uint8_t>(y0_grid, x0_grid) = 255;
+    grid_2d_1.at<uint8_t>(y1_grid, x1_grid) = 255;
+
     // Append our keypoints and descriptors
     pts0.push_back(pts0_ext[index_pt0]);
     pts1.push_back(pts1_ext[index_pt1]);
-- 
2.43.0


From 50a89c1b1e18ac6dd64678bdadebc73e174db8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 34/50] fix: change the identity of a tracked feature in the
 database itself

---
 ov_core/src/feat/FeatureDatabase.cpp | 11 +++++++++++
 ov_core/src/feat/FeatureDatabase.h   |  7 +++++++
 ov_core/src/track/TrackBase.cpp      |  7 +------
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/ov_core/src/feat/FeatureDatabase.cpp b/ov_core/src/feat/FeatureDatabase.cpp
index 0e18b24..07a2b69 100644
--- a/ov_core/src/feat/FeatureDatabase.cpp
+++ b/ov_core/src/feat/FeatureDatabase.cpp
@@ -84,6 +84,17 @@ void FeatureDatabase::update_feature(size_t id, double timestamp, size_t cam_id,
   features_idlookup[id] = feat;
 }
 
+void FeatureDatabase::change_feature_id(size_t id_old, size_t id_new) {
+  std::lock_guard<std::mutex> lck(mtx);
+  auto it = features_idlookup.find(id_old);
+  if (it == features_idlookup.end() || id_old == id_new)
+    return;
+  std::shared_ptr<Feature> feat = it->second;
+  features_idlookup.erase(it);
+  feat->featid = id_new;
+  features_idlookup.insert({id_new, feat});
+}
+
 std::vector<std::shared_ptr<Feature>> FeatureDatabase::features_not_containing_newer(double timestamp, bool remove, bool skip_deleted) {
 
   // Our vector of features that do not have measurements after the specified time
diff --git a/ov_core/src/feat/FeatureDatabase.h b/ov_core/src/feat/FeatureDatabase.h
index df48622..e2c0b4e 100644
--- a/ov_core/src/feat/FeatureDatabase.h
+++ b/ov_core/src/feat/FeatureDatabase.h
@@ -90,6 +90,13 @@ public:
    */
   void update_feature(size_t id, double timestamp, size_t cam_id, float u, float v, float u_n, float v_n);
 
+  /**
+   * @brief Changes the ID of a feature to another one.
+   * @param id_old ID of the feature (nothing happens if it is not in the database)
+   * @param id_new ID the feature will have after this
+   */
+  void change_feature_id(size_t id_old, size_t id_new);
+
   /**
    * @brief Get features that do not have newer measurement then the specified time.
    *
diff --git a/ov_core/src/track/TrackBase.cpp b/ov_core/src/track/TrackBase.cpp
index 8be73b5..f1310af 100644
--- a/ov_core/src/track/TrackBase.cpp
+++ b/ov_core/src/track/TrackBase.cpp
@@ -230,12 +230,7 @@ void TrackBase::display_history(cv::Mat &img_out, int r1, int g1, int b1, int r2
 void TrackBase::change_feat_id(size_t id_old, size_t id_new) {
 
   // If found in db then replace
-  if (database->get_internal_data().find(id_old) != database->get_internal_data().end()) {
-    std::shared_ptr<Feature> feat = database->get_internal_data().at(id_old);
-    database->get_internal_data().erase(id_old);
-    feat->featid = id_new;
-    database->get_internal_data().insert({id_new, feat});
-  }
+  database->change_feature_id(id_old, id_new);
 
   // Update current track IDs
   for (auto &cam_ids_pair : ids_last) {
-- 
2.43.0


From 87072fa2541ae650ea6acee4e2f7974628a0ea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:41 +0000
Subject: [PATCH 35/50] fix: do not match descriptors with an image that has no
 features

---
 ov_core/src/track/TrackDescriptor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ov_core/src/track/TrackDescriptor.cpp b/ov_core/src/track/TrackDescriptor.cpp
index 17fd0db..b3b037e 100644
--- a/ov_core/src/track/TrackDescriptor.cpp
+++ b/ov_core/src/track/TrackDescriptor.cpp
@@ -484,6 +484,10 @@ void TrackDescriptor::perform_detection_stereo(const cv::Mat &img0, const cv::Ma
 void TrackDescriptor::robust_match(const std::vector<cv::KeyPoint> &pts0, const std::vector<cv::KeyPoint> &pts1, const cv::Mat &desc0,
                                    const cv::Mat &desc1, size_t id0, size_t id1, std::vector<cv::DMatch> &matches) {
 
+  // There is nothing to match if one of the images has no features
+  if (pts0.empty() || pts1.empty())
+    return;
+
   // Our 1to2 and 2to1 match vectors
   std::vector<std::vector<cv::DMatch>> matches0to1, matches1to0;
 
-- 
2.43.0


From 0704a1619cf8ea4a3e9fbb9bbffe4be3fda39ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:08 +0000
Subject: [PATCH 36/50] fix: do not keep features that were refined out of the
 image

---
 ov_core/src/track/TrackKLT.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ov_core/src/track/TrackKLT.cpp b/ov_core/src/track/TrackKLT.cpp
index 535b547..b8c03d9 100644
--- a/ov_core/src/track/TrackKLT.cpp
+++ b/ov_core/src/track/TrackKLT.cpp
@@ -500,7 +500,7 @@ void TrackKLT::perform_detection_monocular(const std::vector<cv::Mat> &img0pyr,
     // Check that it is in bounds
     int x_grid = (int)(kpt.pt.x / (float)min_px_dist);
     int y_grid = (int)(kpt.pt.y / (float)min_px_dist);
-    if (x_grid < 0 || x_grid >= size_close.width || y_grid < 0 || y_grid >= size_close.height)
+    if (kpt.pt.x < 0 || x_grid >= size_close.width || kpt.pt.y < 0 || y_grid >= size_close.height)
       continue;
     // See if there is a point at this location
     if (grid_2d_close.at<uint8_t>(y_grid, x_grid) > 127)
@@ -638,7 +638,7 @@ void TrackKLT::perform_detection_stereo(const std::vector<cv::Mat> &img0pyr, con
       // Check that it is in bounds
       int x_grid = (int)(kpt.pt.x / (float)min_px_dist);
       int y_grid = (int)(kpt.pt.y / (float)min_px_dist);
-      if (x_grid < 0 || x_grid >= size_close0.width || y_grid < 0 || y_grid >= size_close0.height)
+      if (kpt.pt.x < 0 || x_grid >= size_close0.width || kpt.pt.y < 0 || y_grid >= size_close0.height)
         continue;
       // See if there is a point at this location
       if (grid_2d_close0.at<uint8_t>(y_grid, x_grid) > 127)
@@ -812,7 +812,7 @@ void TrackKLT::perform_detection_stereo(const std::vector<cv::Mat> &img0pyr, con
       // Check that it is in bounds
       int x_grid = (int)(kpt.pt.x / (float)min_px_dist);
       int y_grid = (int)(kpt.pt.y / (float)min_px_dist);
-      if (x_grid < 0 || x_grid >= size_close1.width || y_grid < 0 || y_grid >= size_close1.height)
+      if (kpt.pt.x < 0 || x_grid >= size_close1.width || kpt.pt.y < 0 || y_grid >= size_close1.height)
         continue;
       // See if there is a point at this location
       if (grid_2d_close1.at<uint8_t>(y_grid, x_grid) > 127)
-- 
2.43.0


From 5ab7556e0fa12b1472ced657ab3c33e0e44a32ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:05 +0000
Subject: [PATCH 37/50] fix: create the tracking state of each camera before
 cameras are tracked in parallel

---
 ov_core/src/track/TrackAruco.h      | 5 +++++
 ov_core/src/track/TrackBase.cpp     | 6 ++++++
 ov_core/src/track/TrackDescriptor.h | 5 ++++-
 ov_core/src/track/TrackKLT.h        | 5 ++++-
 4 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/ov_core/src/track/TrackAruco.h b/ov_core/src/track/TrackAruco.h
index 35738aa..8675a0a 100644
--- a/ov_core/src/track/TrackAruco.h
+++ b/ov_core/src/track/TrackAruco.h
@@ -65,6 +65,11 @@ public:
     // NOTE: people with newer opencv might fail here
     // aruco_params->cornerRefinementMethod = cv::aruco::CornerRefineMethod::CORNER_REFINE_SUBPIX;
 #endif
+    for (auto const &cam : camera_calib) {
+      ids_aruco[cam.first];
+      corners[cam.first];
+      rejects[cam.first];
+    }
 #else
     PRINT_ERROR(RED "[ERROR]: you have not compiled with aruco tag support!!!\n" RESET);
     std::exit(EXIT_FAILURE);
diff --git a/ov_core/src/track/TrackBase.cpp b/ov_core/src/track/TrackBase.cpp
index f1310af..8407b14 100644
--- a/ov_core/src/track/TrackBase.cpp
+++ b/ov_core/src/track/TrackBase.cpp
@@ -38,6 +38,12 @@ TrackBase::TrackBase(std::unordered_map<size_t, std::shared_ptr<CamBase>> camera
     std::vector<std::mutex> list(camera_calib.size());
     mtx_feeds.swap(list);
   }
+  // Create the storage of each camera now, since the cameras can be tracked in parallel
+  for (auto const &cam : camera_calib) {
+    img_mask_last[cam.first];
+    pts_last[cam.first];
+    ids_last[cam.first];
+  }
 }
 
 void TrackBase::display_active(cv::Mat &img_out, int r1, int g1, int b1, int r2, int g2, int b2, std::string overlay) {
diff --git a/ov_core/src/track/TrackDescriptor.h b/ov_core/src/track/TrackDescriptor.h
index 30ce909..6716bd9 100644
--- a/ov_core/src/track/TrackDescriptor.h
+++ b/ov_core/src/track/TrackDescriptor.h
@@ -53,7 +53,10 @@ public:
   explicit TrackDescriptor(std::unordered_map<size_t, std::shared_ptr<CamBase>> cameras, int numfeats, int numaruco, bool stereo,
                            HistogramMethod histmethod, int fast_threshold, int gridx, int gridy, int minpxdist, double knnratio)
       : TrackBase(cameras, numfeats, numaruco, stereo, histmethod), threshold(fast_threshold), grid_x(gridx), grid_y(gridy),
-        min_px_dist(minpxdist), knn_ratio(knnratio) {}
+        min_px_dist(minpxdist), knn_ratio(knnratio) {
+    for (auto const &cam : camera_calib)
+      desc_last[cam.first];
+  }
 
   /**
    * @brief Process a new image
diff --git a/ov_core/src/track/TrackKLT.h b/ov_core/src/track/TrackKLT.h
index f3ed6ea..d3499ed 100644
--- a/ov_core/src/track/TrackKLT.h
+++ b/ov_core/src/track/TrackKLT.h
@@ -54,7 +54,10 @@ public:
   explicit TrackKLT(std::unordered_map<size_t, std::shared_ptr<CamBase>> cameras, int numfeats, int numaruco, bool stereo,
                     HistogramMethod histmethod, int fast_threshold, int gridx, int gridy, int minpxdist)
       : TrackBase(cameras, numfeats, numaruco, stereo, histmethod), threshold(fast_threshold), grid_x(gridx), grid_y(gridy),
-        min_px_dist(minpxdist) {}
+        min_px_dist(minpxdist) {
+    for (auto const &cam : camera_calib)
+      img_pyramid_last[cam.first];
+  }
 
   /**
    * @brief Process a new image
-- 
2.43.0


From a681f151c3204439f93913fb4847102366560376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:05 +0000
Subject: [PATCH 38/50] fix: lock the window while a clone is added to it

---
 ov_msckf/src/state/StateHelper.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ov_msckf/src/state/StateHelper.cpp b/ov_msckf/src/state/StateHelper.cpp
index 0c89c56..a472728 100644
--- a/ov_msckf/src/state/StateHelper.cpp
+++ b/ov_msckf/src/state/StateHelper.cpp
@@ -596,7 +596,11 @@ void StateHelper::augment_clone(std::shared_ptr<State> state, Eigen::Matrix<doub
   }
 
   // Append the new clone to our clone vector
-  state->_clones_IMU[state->_timestamp] = pose;
+  {
+    // Lock the mutex to avoid adding any elements to _clones_IMU while accessing it from other threads
+    std::lock_guard<std::mutex> lock(state->_mutex_state);
+    state->_clones_IMU[state->_timestamp] = pose;
+  }
 
   // If we are doing time calibration, then our clones are a function of the time offset
   // Logic is based on Mingyang Li and Anastasios I. Mourikis paper:
-- 
2.43.0


From 2f56f04386c873bcc1a8302e90cc224eb96b4469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:05 +0000
Subject: [PATCH 39/50] fix: lock the inertial readings of the propagator while
 old ones are removed

---
 ov_msckf/src/state/Propagator.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ov_msckf/src/state/Propagator.h b/ov_msckf/src/state/Propagator.h
index 94556a3..fd50cfc 100644
--- a/ov_msckf/src/state/Propagator.h
+++ b/ov_msckf/src/state/Propagator.h
@@ -65,8 +65,10 @@ public:
   void feed_imu(const ov_core::ImuData &message, double oldest_time = -1) {
 
     // Append it to our vector
-    std::lock_guard<std::mutex> lck(imu_data_mtx);
-    imu_data.emplace_back(message);
+    {
+      std::lock_guard<std::mutex> lck(imu_data_mtx);
+      imu_data.emplace_back(message);
+    }
 
     // Clean old measurements
     // std::cout << "PROP: imu_data.size() " << imu_data.size() << std::endl;
@@ -92,6 +94,7 @@ public:
   void clean_old_imu_measurements(double oldest_time) {
     if (oldest_time < 0)
       return;
+    std::lock_guard<std::mutex> lck(imu_data_mtx);
     auto it0 = imu_data.begin();
     while (it0 != imu_data.end()) {
       // NOTE: keep the last one before this time, since if readings have been lost it is needed to interpolate at a later time
-- 
2.43.0


From 6f6b99472802c9704f86aae2334c3a85469eb027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:00 +0000
Subject: [PATCH 40/50] fix: lock the inertial readings of the zero velocity
 updater

---
 ov_msckf/src/update/UpdaterZeroVelocity.cpp | 15 +++++++++++----
 ov_msckf/src/update/UpdaterZeroVelocity.h   | 10 +++++++++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/ov_msckf/src/update/UpdaterZeroVelocity.cpp b/ov_msckf/src/update/UpdaterZeroVelocity.cpp
index ea67da8..0331383 100644
--- a/ov_msckf/src/update/UpdaterZeroVelocity.cpp
+++ b/ov_msckf/src/update/UpdaterZeroVelocity.cpp
@@ -65,9 +65,12 @@ UpdaterZeroVelocity::UpdaterZeroVelocity(UpdaterOptions &options, NoiseManager &
 bool UpdaterZeroVelocity::try_update(std::shared_ptr<State> state, double timestamp) {
 
   // Return if we don't have any imu data yet
-  if (imu_data.empty()) {
-    last_zupt_state_timestamp = 0.0;
-    return false;
+  {
+    std::lock_guard<std::mutex> lck(imu_data_mtx);
+    if (imu_data.empty()) {
+      last_zupt_state_timestamp = 0.0;
+      return false;
+    }
   }
 
   // Return if the state is already at the desired time (or past it, thus the image is out of order)
@@ -94,7 +97,11 @@ bool UpdaterZeroVelocity::try_update(std::shared_ptr<State> state, double timest
   double time1 = timestamp + t_off_new;
 
   // Select bounding inertial measurements
-  std::vector<ov_core::ImuData> imu_recent = Propagator::select_imu_readings(imu_data, time0, time1);
+  std::vector<ov_core::ImuData> imu_recent;
+  {
+    std::lock_guard<std::mutex> lck(imu_data_mtx);
+    imu_recent = Propagator::select_imu_readings(imu_data, time0, time1);
+  }
 
   // Move forward in time
   last_prop_time_offset = t_off_new;
diff --git a/ov_msckf/src/update/UpdaterZeroVelocity.h b/ov_msckf/src/update/UpdaterZeroVelocity.h
index d1fee7e..99420ba 100644
--- a/ov_msckf/src/update/UpdaterZeroVelocity.h
+++ b/ov_msckf/src/update/UpdaterZeroVelocity.h
@@ -23,6 +23,7 @@
 #define OV_MSCKF_UPDATER_ZEROVELOCITY_H
 
 #include <memory>
+#include <mutex>
 
 #include "utils/sensor_data.h"
 
@@ -77,7 +78,10 @@ public:
   void feed_imu(const ov_core::ImuData &message, double oldest_time = -1) {
 
     // Append it to our vector
-    imu_data.emplace_back(message);
+    {
+      std::lock_guard<std::mutex> lck(imu_data_mtx);
+      imu_data.emplace_back(message);
+    }
 
     // Sort our imu data (handles any out of order measurements)
     // std::sort(imu_data.begin(), imu_data.end(), [](const IMUDATA i, const IMUDATA j) {
@@ -96,6 +100,7 @@ public:
   void clean_old_imu_measurements(double oldest_time) {
     if (oldest_time < 0)
       return;
+    std::lock_guard<std::mutex> lck(imu_data_mtx);
     auto it0 = imu_data.begin();
     while (it0 != imu_data.end()) {
       // NOTE: keep the last one before this time, since if readings have been lost it is needed to interpolate at a later time
@@ -146,6 +151,9 @@ protected:
   /// Our history of IMU messages (time, angular, linear)
   std::vector<ov_core::ImuData> imu_data;
 
+  /// Mutex for our inertial data, which arrives while we try to update
+  std::mutex imu_data_mtx;
+
   /// Estimate for time offset at last propagation time
   double last_prop_time_offset = 0.0;
   bool have_last_prop_time_offset = false;
-- 
2.43.0


From 49fb4266f841333125cafeb59b6edc7b9b736c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:00 +0000
Subject: [PATCH 41/50] fix: lock the feature database measurements are
 appended from

---
 ov_core/src/feat/FeatureDatabase.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ov_core/src/feat/FeatureDatabase.cpp b/ov_core/src/feat/FeatureDatabase.cpp
index 07a2b69..48fdc17 100644
--- a/ov_core/src/feat/FeatureDatabase.cpp
+++ b/ov_core/src/feat/FeatureDatabase.cpp
@@ -287,11 +287,14 @@ double FeatureDatabase::get_oldest_timestamp() {
 }
 
 void FeatureDatabase::append_new_measurements(const std::shared_ptr<FeatureDatabase> &database) {
-  std::lock_guard<std::mutex> lck(mtx);
+  // NOTE: both are locked since the other database could also be appended to while we copy from it
+  std::lock(mtx, database->mtx);
+  std::lock_guard<std::mutex> lck(mtx, std::adopt_lock);
+  std::lock_guard<std::mutex> lck_other(database->mtx, std::adopt_lock);
 
   // Loop through the other database's internal database
   // int sizebefore = (int)features_idlookup.size();
-  for (const auto &feat : database->get_internal_data()) {
+  for (const auto &feat : database->features_idlookup) {
     if (features_idlookup.find(feat.first) != features_idlookup.end()) {
 
       // For this feature, now try to append the new measurement data
-- 
2.43.0


From 178ca5a6e68be09acbe5f857f470264e4f07e6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:00 +0000
Subject: [PATCH 42/50] fix: initialize from copies of the readings and
 features that keep arriving

---
 ov_init/src/init/InertialInitializer.cpp | 35 ++++++++++++++++--------
 ov_init/src/init/InertialInitializer.h   | 11 ++++++++
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/ov_init/src/init/InertialInitializer.cpp b/ov_init/src/init/InertialInitializer.cpp
index 86699a2..e07d4e4 100644
--- a/ov_init/src/init/InertialInitializer.cpp
+++ b/ov_init/src/init/InertialInitializer.cpp
@@ -42,11 +42,12 @@ InertialInitializer::InertialInitializer(InertialInitializerOptions &params_, st
 
   // Vector of our IMU data
   imu_data = std::make_shared<std::vector<ov_core::ImuData>>();
+  _db_init = std::make_shared<ov_core::FeatureDatabase>();
 
   // Create initializers
-  init_static = std::make_shared<StaticInitializer>(params, _db, imu_data);
+  init_static = std::make_shared<StaticInitializer>(params, _db_init, imu_data);
 #ifndef __ANDROID__
-  init_dynamic = std::make_shared<DynamicInitializer>(params, _db, imu_data);
+  init_dynamic = std::make_shared<DynamicInitializer>(params, _db_init, imu_data);
 #else
   init_dynamic = nullptr;
 #endif
@@ -55,7 +56,8 @@ InertialInitializer::InertialInitializer(InertialInitializerOptions &params_, st
 void InertialInitializer::feed_imu(const ov_core::ImuData &message, double oldest_time) {
 
   // Append it to our vector
-  imu_data->emplace_back(message);
+  std::lock_guard<std::mutex> lck(imu_data_mtx);
+  imu_data_feed.emplace_back(message);
 
   // Sort our imu data (handles any out of order measurements)
   // std::sort(imu_data->begin(), imu_data->end(), [](const IMUDATA i, const IMUDATA j) {
@@ -65,10 +67,10 @@ void InertialInitializer::feed_imu(const ov_core::ImuData &message, double oldes
   // Loop through and delete imu messages that are older than our requested time
   // std::cout << "INIT: imu_data.size() " << imu_data->size() << std::endl;
   if (oldest_time != -1) {
-    auto it0 = imu_data->begin();
-    while (it0 != imu_data->end()) {
+    auto it0 = imu_data_feed.begin();
+    while (it0 != imu_data_feed.end()) {
       if (it0->timestamp < oldest_time) {
-        it0 = imu_data->erase(it0);
+        it0 = imu_data_feed.erase(it0);
       } else {
         it0++;
       }
@@ -79,9 +81,13 @@ void InertialInitializer::feed_imu(const ov_core::ImuData &message, double oldes
 bool InertialInitializer::initialize(double &timestamp, Eigen::MatrixXd &covariance, std::vector<std::shared_ptr<ov_type::Type>> &order,
                                      std::shared_ptr<ov_type::IMU> t_imu, bool wait_for_jerk) {
 
+  // Copy the features, since new measurements can be appended to them while we are running
+  _db_init->cleanup_measurements(INFINITY);
+  _db_init->append_new_measurements(_db);
+
   // Get the newest and oldest timestamps we will try to initialize between!
   double newest_cam_time = -1;
-  for (auto const &feat : _db->get_internal_data()) {
+  for (auto const &feat : _db_init->get_internal_data()) {
     for (auto const &camtimepair : feat.second->timestamps) {
       for (auto const &time : camtimepair.second) {
         newest_cam_time = std::max(newest_cam_time, time);
@@ -96,9 +102,14 @@ bool InertialInitializer::initialize(double &timestamp, Eigen::MatrixXd &covaria
   // Remove all measurements that are older then our initialization window
   // Then we will try to use all features that are in the feature database!
   _db->cleanup_measurements(oldest_time);
-  auto it_imu = imu_data->begin();
-  while (it_imu != imu_data->end() && it_imu->timestamp < oldest_time + params.calib_camimu_dt) {
-    it_imu = imu_data->erase(it_imu);
+  _db_init->cleanup_measurements(oldest_time);
+  {
+    std::lock_guard<std::mutex> lck(imu_data_mtx);
+    auto it_imu = imu_data_feed.begin();
+    while (it_imu != imu_data_feed.end() && it_imu->timestamp < oldest_time + params.calib_camimu_dt) {
+      it_imu = imu_data_feed.erase(it_imu);
+    }
+    *imu_data = imu_data_feed;
   }
 
   // Compute the disparity of the system at the current timestep
@@ -115,8 +126,8 @@ bool InertialInitializer::initialize(double &timestamp, Eigen::MatrixXd &covaria
     int num_features1 = 0;
     double avg_disp0, avg_disp1;
     double var_disp0, var_disp1;
-    FeatureHelper::compute_disparity(_db, avg_disp0, var_disp0, num_features0, newest_time_allowed);
-    FeatureHelper::compute_disparity(_db, avg_disp1, var_disp1, num_features1, newest_cam_time, newest_time_allowed);
+    FeatureHelper::compute_disparity(_db_init, avg_disp0, var_disp0, num_features0, newest_time_allowed);
+    FeatureHelper::compute_disparity(_db_init, avg_disp1, var_disp1, num_features1, newest_cam_time, newest_time_allowed);
 
     // Return if we can't compute the disparity
     int feat_thresh = 15;
diff --git a/ov_init/src/init/InertialInitializer.h b/ov_init/src/init/InertialInitializer.h
index 9269a9d..dbc019f 100644
--- a/ov_init/src/init/InertialInitializer.h
+++ b/ov_init/src/init/InertialInitializer.h
@@ -22,6 +22,8 @@
 #ifndef OV_INIT_INERTIALINITIALIZER_H
 #define OV_INIT_INERTIALINITIALIZER_H
 
+#include <mutex>
+
 #include "init/InertialInitializerOptions.h"
 
 namespace ov_core {
@@ -107,6 +109,15 @@ protected:
   /// Our history of IMU messages (time, angular, linear)
   std::shared_ptr<std::vector<ov_core::ImuData>> imu_data;
 
+  /// Features the initializers work with, copied from our database since it is appended to while they run in another thread
+  std::shared_ptr<ov_core::FeatureDatabase> _db_init;
+
+  /// Our inertial readings as they arrive, copied into our history of IMU messages when we try to initialize
+  std::vector<ov_core::ImuData> imu_data_feed;
+
+  /// Mutex for the readings which arrive
+  std::mutex imu_data_mtx;
+
   /// Static initialization helper class
   std::shared_ptr<StaticInitializer> init_static;
 
-- 
2.43.0


From bc969c7251bb45f074d94f4b3bd12b218f32f1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:00 +0000
Subject: [PATCH 43/50] fix: lock the last tracks while an id is changed

---
 ov_core/src/track/TrackBase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ov_core/src/track/TrackBase.cpp b/ov_core/src/track/TrackBase.cpp
index 8407b14..3355bdb 100644
--- a/ov_core/src/track/TrackBase.cpp
+++ b/ov_core/src/track/TrackBase.cpp
@@ -239,6 +239,7 @@ void TrackBase::change_feat_id(size_t id_old, size_t id_new) {
   database->change_feature_id(id_old, id_new);
 
   // Update current track IDs
+  std::lock_guard<std::mutex> lckv(mtx_last_vars);
   for (auto &cam_ids_pair : ids_last) {
     for (size_t i = 0; i < cam_ids_pair.second.size(); i++) {
       if (cam_ids_pair.second.at(i) == id_old) {
-- 
2.43.0


From b2bcee92dec9914f7bd6399a55157da9892c8d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:50 +0000
Subject: [PATCH 44/50] fix: lock the detected tags while they are displayed

---
 ov_core/src/track/TrackAruco.cpp | 54 +++++++++++++++++---------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/ov_core/src/track/TrackAruco.cpp b/ov_core/src/track/TrackAruco.cpp
index 7a473fe..3ec03d0 100644
--- a/ov_core/src/track/TrackAruco.cpp
+++ b/ov_core/src/track/TrackAruco.cpp
@@ -77,10 +77,9 @@ void TrackAruco::perform_tracking(double timestamp, const cv::Mat &imgin, size_t
     img = imgin;
   }
 
-  // Clear the old data from the last timestep
-  ids_aruco[cam_id].clear();
-  corners[cam_id].clear();
-  rejects[cam_id].clear();
+  // Our new detections
+  std::vector<int> ids_found;
+  std::vector<std::vector<cv::Point2f>> corners_found, rejects_found;
 
   // If we are downsizing, then downsize
   cv::Mat img0;
@@ -95,9 +94,9 @@ void TrackAruco::perform_tracking(double timestamp, const cv::Mat &imgin, size_t
 
   // Perform extraction
 #if CV_MAJOR_VERSION > 4 || ( CV_MAJOR_VERSION == 4 && CV_MINOR_VERSION >= 7)
-  aruco_detector.detectMarkers(img0, corners[cam_id], ids_aruco[cam_id], rejects[cam_id]);
+  aruco_detector.detectMarkers(img0, corners_found, ids_found, rejects_found);
 #else
-  cv::aruco::detectMarkers(img0, aruco_dict, corners[cam_id], ids_aruco[cam_id], aruco_params, rejects[cam_id]);
+  cv::aruco::detectMarkers(img0, aruco_dict, corners_found, ids_found, aruco_params, rejects_found);
 #endif
   rT2 = boost::posix_time::microsec_clock::local_time();
 
@@ -108,16 +107,16 @@ void TrackAruco::perform_tracking(double timestamp, const cv::Mat &imgin, size_t
   // Note: we do this so we can use these results for visulization later
   // Note: and so that the uv added is in the same image size
   if (do_downsizing) {
-    for (size_t i = 0; i < corners[cam_id].size(); i++) {
-      for (size_t j = 0; j < corners[cam_id].at(i).size(); j++) {
-        corners[cam_id].at(i).at(j).x *= 2;
-        corners[cam_id].at(i).at(j).y *= 2;
+    for (size_t i = 0; i < corners_found.size(); i++) {
+      for (size_t j = 0; j < corners_found.at(i).size(); j++) {
+        corners_found.at(i).at(j).x *= 2;
+        corners_found.at(i).at(j).y *= 2;
       }
     }
-    for (size_t i = 0; i < rejects[cam_id].size(); i++) {
-      for (size_t j = 0; j < rejects[cam_id].at(i).size(); j++) {
-        rejects[cam_id].at(i).at(j).x *= 2;
-        rejects[cam_id].at(i).at(j).y *= 2;
+    for (size_t i = 0; i < rejects_found.size(); i++) {
+      for (size_t j = 0; j < rejects_found.at(i).size(); j++) {
+        rejects_found.at(i).at(j).x *= 2;
+        rejects_found.at(i).at(j).y *= 2;
       }
     }
   }
@@ -130,25 +129,25 @@ void TrackAruco::perform_tracking(double timestamp, const cv::Mat &imgin, size_t
   std::vector<cv::KeyPoint> pts_new;
 
   // Append to our feature database this new information
-  for (size_t i = 0; i < ids_aruco[cam_id].size(); i++) {
+  for (size_t i = 0; i < ids_found.size(); i++) {
     // Skip if ID is not below our max (its corner ids would be those of other tags)
-    if (ids_aruco[cam_id].at(i) >= max_tag_id)
+    if (ids_found.at(i) >= max_tag_id)
       continue;
     // Assert we have 4 points (we will only use one of them)
-    assert(corners[cam_id].at(i).size() == 4);
+    assert(corners_found.at(i).size() == 4);
     for (int n = 0; n < 4; n++) {
       // Check if it is in the mask
       // NOTE: mask has max value of 255 (white) if it should be
-      if (maskin.at<uint8_t>((int)corners[cam_id].at(i).at(n).y, (int)corners[cam_id].at(i).at(n).x) > 127)
+      if (maskin.at<uint8_t>((int)corners_found.at(i).at(n).y, (int)corners_found.at(i).at(n).x) > 127)
         continue;
       // Try to undistort the point
-      cv::Point2f npt_l = camera_calib.at(cam_id)->undistort_cv(corners[cam_id].at(i).at(n));
+      cv::Point2f npt_l = camera_calib.at(cam_id)->undistort_cv(corners_found.at(i).at(n));
       // Append to the ids vector and database
-      size_t tmp_id = (size_t)ids_aruco[cam_id].at(i) + n * max_tag_id;
-      database->update_feature(tmp_id, timestamp, cam_id, corners[cam_id].at(i).at(n).x, corners[cam_id].at(i).at(n).y, npt_l.x, npt_l.y);
+      size_t tmp_id = (size_t)ids_found.at(i) + n * max_tag_id;
+      database->update_feature(tmp_id, timestamp, cam_id, corners_found.at(i).at(n).x, corners_found.at(i).at(n).y, npt_l.x, npt_l.y);
       // Append to active tracked point list
       cv::KeyPoint kpt;
-      kpt.pt = corners[cam_id].at(i).at(n);
+      kpt.pt = corners_found.at(i).at(n);
       ids_new.push_back(tmp_id);
       pts_new.push_back(kpt);
     }
@@ -161,6 +160,9 @@ void TrackAruco::perform_tracking(double timestamp, const cv::Mat &imgin, size_t
     img_mask_last[cam_id] = maskin;
     ids_last[cam_id] = ids_new;
     pts_last[cam_id] = pts_new;
+    ids_aruco[cam_id] = ids_found;
+    corners[cam_id] = corners_found;
+    rejects[cam_id] = rejects_found;
   }
   rT3 = boost::posix_time::microsec_clock::local_time();
 
@@ -175,14 +177,16 @@ void TrackAruco::display_active(cv::Mat &img_out, int r1, int g1, int b1, int r2
 
   // Cache the images to prevent other threads from editing while we viz (which can be slow)
   std::map<size_t, cv::Mat> img_last_cache, img_mask_last_cache;
+  std::unordered_map<size_t, std::vector<int>> ids_aruco_cache;
+  std::unordered_map<size_t, std::vector<std::vector<cv::Point2f>>> corners_cache, rejects_cache;
   {
     std::lock_guard<std::mutex> lckv(mtx_last_vars);
     img_last_cache = img_last;
     img_mask_last_cache = img_mask_last;
+    ids_aruco_cache = ids_aruco;
+    corners_cache = corners;
+    rejects_cache = rejects;
   }
-  auto ids_aruco_cache = ids_aruco;
-  auto corners_cache = corners;
-  auto rejects_cache = rejects;
 
   // Get the largest width and height
   int max_width = -1;
-- 
2.43.0


From 08baf4e84fa2d98dfba57b15e272b34377718793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:50 +0000
Subject: [PATCH 45/50] fix: wait for the background initialization before the
 manager is destroyed

---
 ov_msckf/src/core/VioManager.cpp       |  5 +++++
 ov_msckf/src/core/VioManager.h         |  5 +++++
 ov_msckf/src/core/VioManagerHelper.cpp | 11 ++++++-----
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/ov_msckf/src/core/VioManager.cpp b/ov_msckf/src/core/VioManager.cpp
index 6bb1bca..25748cb 100644
--- a/ov_msckf/src/core/VioManager.cpp
+++ b/ov_msckf/src/core/VioManager.cpp
@@ -163,6 +163,11 @@ VioManager::VioManager(VioManagerOptions &params_) : thread_init_running(false),
   }
 }
 
+VioManager::~VioManager() {
+  if (thread_init.joinable())
+    thread_init.join();
+}
+
 void VioManager::feed_measurement_imu(const ov_core::ImuData &message) {
 
   // The oldest time we need IMU with is the last clone
diff --git a/ov_msckf/src/core/VioManager.h b/ov_msckf/src/core/VioManager.h
index 3fd7089..57b21fb 100644
--- a/ov_msckf/src/core/VioManager.h
+++ b/ov_msckf/src/core/VioManager.h
@@ -30,6 +30,7 @@
 #include <memory>
 #include <mutex>
 #include <string>
+#include <thread>
 
 #include "VioManagerOptions.h"
 
@@ -68,6 +69,9 @@ public:
    */
   VioManager(VioManagerOptions &params_);
 
+  /// Waits for the initialization if it is still running in the background, since it uses our variables
+  ~VioManager();
+
   /**
    * @brief Feed function for inertial data
    * @param message Contains our timestamp and inertial information
@@ -224,6 +228,7 @@ protected:
 
   // Threads and their atomics
   std::atomic<bool> thread_init_running, thread_init_success;
+  std::thread thread_init;
 
   // If we did a zero velocity update
   bool did_zupt_update = false;
diff --git a/ov_msckf/src/core/VioManagerHelper.cpp b/ov_msckf/src/core/VioManagerHelper.cpp
index 48198bc..f0e6df5 100644
--- a/ov_msckf/src/core/VioManagerHelper.cpp
+++ b/ov_msckf/src/core/VioManagerHelper.cpp
@@ -92,8 +92,11 @@ bool VioManager::try_to_initialize(const ov_core::CameraData &message) {
   }
 
   // Run the initialization in a second thread so it can go as slow as it desires
+  // NOTE: the last one has finished, but still needs to be joined
+  if (thread_init.joinable())
+    thread_init.join();
   thread_init_running = true;
-  std::thread thread([&] {
+  thread_init = std::thread([this] {
     // Returns from our initializer
     double timestamp;
     Eigen::MatrixXd covariance;
@@ -178,11 +181,9 @@ bool VioManager::try_to_initialize(const ov_core::CameraData &message) {
   });
 
   // If we are single threaded, then run single threaded
-  // Otherwise detach this thread so it runs in the background!
+  // Otherwise leave this thread so it runs in the background!
   if (!params.use_multi_threading_subs) {
-    thread.join();
-  } else {
-    thread.detach();
+    thread_init.join();
   }
   return false;
 }
-- 
2.43.0


From d4deb643be3facb2647cf07e49a1dc85da9d301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:50 +0000
Subject: [PATCH 46/50] fix: make the flags and numbers atomic that sensor
 callbacks share with the update

---
 ov_core/src/track/TrackBase.h   | 2 +-
 ov_msckf/src/core/VioManager.h  | 4 ++--
 ov_msckf/src/state/Propagator.h | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ov_core/src/track/TrackBase.h b/ov_core/src/track/TrackBase.h
index e0afee1..6490b09 100644
--- a/ov_core/src/track/TrackBase.h
+++ b/ov_core/src/track/TrackBase.h
@@ -162,7 +162,7 @@ protected:
   std::map<size_t, bool> camera_fisheye;
 
   /// Number of features we should try to track frame to frame
-  int num_features;
+  std::atomic<int> num_features;
 
   /// If we should use binocular tracking or stereo tracking for multi-camera
   bool use_stereo;
diff --git a/ov_msckf/src/core/VioManager.h b/ov_msckf/src/core/VioManager.h
index 57b21fb..da4ea10 100644
--- a/ov_msckf/src/core/VioManager.h
+++ b/ov_msckf/src/core/VioManager.h
@@ -199,7 +199,7 @@ protected:
   std::shared_ptr<ov_init::InertialInitializer> initializer;
 
   /// Boolean if we are initialized or not
-  bool is_initialized_vio = false;
+  std::atomic<bool> is_initialized_vio{false};
 
   /// Our MSCKF feature updater
   std::shared_ptr<UpdaterMSCKF> updaterMSCKF;
@@ -232,7 +232,7 @@ protected:
 
   // If we did a zero velocity update
   bool did_zupt_update = false;
-  bool has_moved_since_zupt = false;
+  std::atomic<bool> has_moved_since_zupt{false};
 
   // Good features that where used in the last update (used in visualization)
   std::vector<Eigen::Vector3d> good_features_MSCKF;
diff --git a/ov_msckf/src/state/Propagator.h b/ov_msckf/src/state/Propagator.h
index fd50cfc..71200c5 100644
--- a/ov_msckf/src/state/Propagator.h
+++ b/ov_msckf/src/state/Propagator.h
@@ -458,7 +458,7 @@ protected:
   Eigen::Vector3d _gravity;
 
   // Estimate for time offset at last propagation time
-  double last_prop_time_offset = 0.0;
+  std::atomic<double> last_prop_time_offset{0.0};
   bool have_last_prop_time_offset = false;
 
   // Cache of the last fast propagated state
-- 
2.43.0


From b3a13e1da3ab27c2f782857e6949c174bb90d586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:12 +0000
Subject: [PATCH 47/50] fix: do not share the timing variables between cameras
 tracked in parallel

---
 ov_core/src/track/TrackAruco.cpp      | 3 ++-
 ov_core/src/track/TrackDescriptor.cpp | 3 ++-
 ov_core/src/track/TrackKLT.cpp        | 3 +++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/ov_core/src/track/TrackAruco.cpp b/ov_core/src/track/TrackAruco.cpp
index 3ec03d0..eb8f541 100644
--- a/ov_core/src/track/TrackAruco.cpp
+++ b/ov_core/src/track/TrackAruco.cpp
@@ -58,7 +58,8 @@ void TrackAruco::feed_new_camera(const CameraData &message) {
 
 void TrackAruco::perform_tracking(double timestamp, const cv::Mat &imgin, size_t cam_id, const cv::Mat &maskin) {
 
-  // Start timing
+  // Start timing of this camera (others could be tracked at the same time)
+  boost::posix_time::ptime rT1, rT2, rT3;
   rT1 = boost::posix_time::microsec_clock::local_time();
 
   // Lock this data feed for this camera
diff --git a/ov_core/src/track/TrackDescriptor.cpp b/ov_core/src/track/TrackDescriptor.cpp
index b3b037e..4bee936 100644
--- a/ov_core/src/track/TrackDescriptor.cpp
+++ b/ov_core/src/track/TrackDescriptor.cpp
@@ -62,7 +62,8 @@ void TrackDescriptor::feed_new_camera(const CameraData &message) {
 
 void TrackDescriptor::feed_monocular(const CameraData &message, size_t msg_id) {
 
-  // Start timing
+  // Start timing of this camera (others could be tracked at the same time)
+  boost::posix_time::ptime rT1, rT2, rT3, rT4, rT5;
   rT1 = boost::posix_time::microsec_clock::local_time();
 
   // Lock this data feed for this camera
diff --git a/ov_core/src/track/TrackKLT.cpp b/ov_core/src/track/TrackKLT.cpp
index b8c03d9..742ef05 100644
--- a/ov_core/src/track/TrackKLT.cpp
+++ b/ov_core/src/track/TrackKLT.cpp
@@ -95,6 +95,9 @@ void TrackKLT::feed_new_camera(const CameraData &message) {
 
 void TrackKLT::feed_monocular(const CameraData &message, size_t msg_id) {
 
+  // Timing of this camera (others could be tracked at the same time)
+  boost::posix_time::ptime rT2, rT3, rT4, rT5;
+
   // Lock this data feed for this camera
   size_t cam_id = message.sensor_ids.at(msg_id);
   std::lock_guard<std::mutex> lck(mtx_feeds.at(cam_id));
-- 
2.43.0


From 0ba34f268f84b8653c461a445fd8d88e7a1f3aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:39 +0000
Subject: [PATCH 48/50] fix: the last update time and zero velocity decision
 are read by other threads

---
 ov_msckf/src/core/VioManager.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ov_msckf/src/core/VioManager.h b/ov_msckf/src/core/VioManager.h
index da4ea10..7a8b3ba 100644
--- a/ov_msckf/src/core/VioManager.h
+++ b/ov_msckf/src/core/VioManager.h
@@ -220,7 +220,7 @@ protected:
   boost::posix_time::ptime rT1, rT2, rT3, rT4, rT5, rT6, rT7;
 
   // Track how much distance we have traveled
-  double timelastupdate = -1;
+  std::atomic<double> timelastupdate{-1};
   double distance = 0;
 
   // Startup time of the filter
@@ -231,7 +231,7 @@ protected:
   std::thread thread_init;
 
   // If we did a zero velocity update
-  bool did_zupt_update = false;
+  std::atomic<bool> did_zupt_update{false};
   std::atomic<bool> has_moved_since_zupt{false};
 
   // Good features that where used in the last update (used in visualization)
-- 
2.43.0


From ead07a97da4ffb5515e103d4c0e64695daf6a778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:48 +0000
Subject: [PATCH 49/50] fix: do not draw the feature history while the update
 changes the features

---
 ov_msckf/src/core/VioManager.cpp       | 3 +++
 ov_msckf/src/core/VioManager.h         | 3 +++
 ov_msckf/src/core/VioManagerHelper.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/ov_msckf/src/core/VioManager.cpp b/ov_msckf/src/core/VioManager.cpp
index 25748cb..9bc3b2f 100644
--- a/ov_msckf/src/core/VioManager.cpp
+++ b/ov_msckf/src/core/VioManager.cpp
@@ -332,6 +332,9 @@ void VioManager::track_image_and_update(const ov_core::CameraData &message_const
 
 void VioManager::do_feature_propagate_update(const ov_core::CameraData &message) {
 
+  // The visualization thread should not look at our features while we update with them
+  std::lock_guard<std::mutex> lck(update_mtx);
+
   //===================================================================================
   // State propagation, and clone augmentation
   //===================================================================================
diff --git a/ov_msckf/src/core/VioManager.h b/ov_msckf/src/core/VioManager.h
index 7a8b3ba..4f13e83 100644
--- a/ov_msckf/src/core/VioManager.h
+++ b/ov_msckf/src/core/VioManager.h
@@ -230,6 +230,9 @@ protected:
   std::atomic<bool> thread_init_running, thread_init_success;
   std::thread thread_init;
 
+  // Held while the update changes the landmarks and features, which the historical image is drawn from by other threads
+  std::mutex update_mtx;
+
   // If we did a zero velocity update
   std::atomic<bool> did_zupt_update{false};
   std::atomic<bool> has_moved_since_zupt{false};
diff --git a/ov_msckf/src/core/VioManagerHelper.cpp b/ov_msckf/src/core/VioManagerHelper.cpp
index f0e6df5..186f0b0 100644
--- a/ov_msckf/src/core/VioManagerHelper.cpp
+++ b/ov_msckf/src/core/VioManagerHelper.cpp
@@ -393,6 +393,9 @@ cv::Mat VioManager::get_historical_viz_image() {
   if (state == nullptr || trackFEATS == nullptr)
     return cv::Mat();
 
+  // The update should not change our features while we draw them
+  std::lock_guard<std::mutex> lck(update_mtx);
+
   // Build an id-list of what features we should highlight (i.e. SLAM)
   std::vector<size_t> highlighted_ids;
   for (const auto &feat : state->_features_SLAM) {
-- 
2.43.0


From 81f3d24f7bdbd67037a49570fc124c4ffc8f8eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:08 +0000
Subject: [PATCH 50/50] fix: the IMU callback should not read the state while
 it is updated

---
 ov_msckf/src/core/VioManager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ov_msckf/src/core/VioManager.cpp b/ov_msckf/src/core/VioManager.cpp
index 9bc3b2f..bb2542a 100644
--- a/ov_msckf/src/core/VioManager.cpp
+++ b/ov_msckf/src/core/VioManager.cpp
@@ -173,11 +173,12 @@ void VioManager::feed_measurement_imu(const ov_core::ImuData &message) {
   // The oldest time we need IMU with is the last clone
   // We shouldn't really need the whole window, but if we go backwards in time we will
   double oldest_time = state->margtimestep();
-  if (oldest_time > state->_timestamp) {
+  if (oldest_time == INFINITY) {
     oldest_time = -1;
   } else {
     // NOTE: the window is in the camera clock, and we will next propagate from the time offset we have propagated to
-    oldest_time += std::min(state->_calib_dt_CAMtoIMU->value()(0), propagator->get_last_prop_time_offset());
+    // NOTE: the state itself can be in the middle of an update, thus do not look at its time or calibration here
+    oldest_time += propagator->get_last_prop_time_offset();
   }
   if (!is_initialized_vio) {
     oldest_time = message.timestamp - params.init_options.init_window_time + state->_calib_dt_CAMtoIMU->value()(0) - 0.10;
-- 
2.43.0

