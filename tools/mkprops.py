#!/usr/bin/env python3
"""Writes properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

RUN = "The existing tests run the simulator through a few fixed configurations and only look at the exit status: "

p("S01", "Filter state operations are exact Gaussian operations with sound bookkeeping",
  "For any sequence of clone, marginalize, initialize, propagate and measurement-update operations on a filter state, the estimate and covariance equal those of a dense textbook Gaussian model to which the same operations were applied. After every operation the state variables occupy disjoint contiguous blocks that exactly tile a finite, symmetric, positive semi-definite covariance, and the marginal and full covariance queries return exactly the requested blocks in the requested order. Adding a camera clone makes it an exact copy of the current inertial pose with the same uncertainty, correlated with the time offset when that is calibrated, and marginalizing a variable leaves every other value and covariance entry unchanged.",
  ["histories", "configurations"], "Every history of state operations (random lengths, orders, variable subsets and measurement sizes) over every combination of calibration options and landmark representation.",
  RUN + "a wrong cross-covariance block, a misplaced index after marginalization or a wrong delayed initialization still exits 0.",
  ["ov_msckf/src/state/StateHelper.cpp", "ov_msckf/src/state/StateHelper.h", "ov_msckf/src/state/State.cpp", "ov_core/src/types/Type.h", "ov_core/src/types/PoseJPL.h", "ov_core/src/types/IMU.h"],
  [("EKFPropagation / EKFUpdate", "ov_msckf/src/state/StateHelper.cpp"), ("marginalize, clone, initialize, augment_clone", "ov_msckf/src/state/StateHelper.cpp"), ("set_local_id on (sub-)variables", "ov_core/src/types")],
  ["StateHelper public functions: inputs, then all variable values, ids and the full covariance after each call"],
  [("covariance and variable list", "error-state covariance and the ordered variables it covers", "ov_msckf/src/state/State.h")])

p("S02", "Sliding-window invariants hold throughout every estimator run",
  "After every processed camera frame of an initialized estimator, the filter time never decreases, the window holds at most the configured number of pose clones, each clone carries the time of a frame that was fed, no clone is older than the oldest allowed by the window, and the newest clone equals the current pose. At most the configured number of map landmarks are kept, every landmark that is expressed relative to an anchor has its anchor pose in the window, no feature measurement older than the window stays stored, and reported feature positions are finite. The covariance stays finite, symmetric and positive semi-definite with the state variables tiling it, and quaternions stay unit norm.",
  ["histories", "configurations"], "Every measurement history (simulated trajectories, dropped frames, varying feature counts) under every filter configuration (representations, window length, landmark limits, calibration flags, mono/stereo, integration method).",
  RUN + "stale clones, dangling anchors or a covariance that lost symmetry do not change the exit status.",
  ["ov_msckf/src/core/VioManager.cpp", "ov_msckf/src/core/VioManagerHelper.cpp", "ov_msckf/src/state/StateHelper.cpp", "ov_msckf/src/update/UpdaterSLAM.cpp"],
  [("do_feature_propagate_update", "ov_msckf/src/core/VioManager.cpp"), ("marginalize_old_clone / marginalize_slam", "ov_msckf/src/state/StateHelper.cpp"), ("change_anchors", "ov_msckf/src/update/UpdaterSLAM.cpp")],
  ["public accessors of the estimator after each fed frame: state, clones, landmarks, covariance, feature lists"])

p("S03", "Inertial propagation covers exactly the requested interval and matches physics",
  "Propagating the filter between two camera times uses inertial readings that start and end exactly at the (time-offset corrected) interval ends, in strictly increasing time, with interpolated values at the ends, however the readings are spaced, duplicated or extend outside the interval. The propagated orientation, position and velocity match an independent high-resolution integration of the calibrated inertial model (biases, intrinsics, gravity sensitivity, gravity) to the accuracy of the selected integration method, for every integration method and inertial model. Biases, calibration, older clones and landmarks are not changed by propagation, and the filter time becomes the requested time.",
  ["inputs", "configurations"], "Every inertial stream (rates, jitter, duplicates, gaps, interval alignment), state, time offset, inertial model, and integration method.",
  RUN + "they use one perfectly regular inertial rate and no accuracy oracle.",
  ["ov_msckf/src/state/Propagator.cpp", "ov_msckf/src/state/Propagator.h", "ov_msckf/src/state/State.h"],
  [("select_imu_readings / interpolate_data", "ov_msckf/src/state/Propagator.cpp"), ("predict_mean_discrete / rk4 / analytic", "ov_msckf/src/state/Propagator.cpp")],
  ["selected readings; state before and after propagate_and_clone"])

p("S04", "Propagated uncertainty is the linearization of the propagated mean",
  "For every integration method, inertial model and calibration option, the covariance after propagation equals the one obtained by mapping the covariance before it through the true derivative of the propagated mean with respect to the inertial state and calibrated inertial intrinsics, plus the injected sensor noise mapped the same way, up to discretization error. Cross-covariances with every other variable are mapped by the same derivative, and uncertainty about variables that are not propagated is untouched. The added noise is positive semi-definite, grows with the interval and scales with the configured noise densities.",
  ["inputs", "configurations"], "Every state, inertial reading pair, interval length, noise setting, inertial model and integration method, with first-estimate Jacobians on or off.",
  RUN + "a wrong Jacobian block only degrades consistency, which no test looks at.",
  ["ov_msckf/src/state/Propagator.cpp", "ov_msckf/src/state/Propagator.h"],
  [("compute_F_and_G_discrete / analytic", "ov_msckf/src/state/Propagator.cpp"), ("compute_Xi_sum", "ov_msckf/src/state/Propagator.cpp"), ("compute_H_Dw / H_Da / H_Tg", "ov_msckf/src/state/Propagator.cpp")],
  ["full covariance before and after propagate_and_clone, against numerical derivatives of the mean"])

p("S05", "Fast state prediction is consistent with the filter and leaves it unchanged",
  "Asking for a fast prediction of the inertial state at a time after the filter time that the stored readings reach returns the same pose, velocity and uncertainty of the inertial state that integrating those readings from the filter state up to that time gives, independent of earlier fast predictions and of how the path there was split into requests. The query changes neither the filter state nor its covariance, and after the filter changes and the cached prediction is invalidated the next prediction starts from the new filter state. It reports failure instead of a value when no stored reading is later than the filter time.",
  ["histories", "inputs"], "Every interleaving of inertial arrivals, filter updates, cache invalidations and prediction queries with any query times.",
  "No existing test calls the fast prediction at all.",
  ["ov_msckf/src/state/Propagator.cpp"],
  [("fast_state_propagate and its cache", "ov_msckf/src/state/Propagator.cpp")],
  ["returned state and covariance; filter state before and after"])

p("S06", "Measurement Jacobians equal derivatives of the reprojection residual",
  "For every camera model, feature representation and calibration option, the feature and state Jacobians and the residual built for a feature track are, at the linearization point, the derivative and value of the difference between the measured and predicted pixel coordinates with respect to the feature parameters, every observing pose, the anchor pose, the camera extrinsics and the camera intrinsics. With first-estimate Jacobians on they are evaluated at the first estimates while the residual uses the current estimates. Each measurement of the track contributes exactly one pair of rows and state variables appear exactly once in the returned order.",
  ["inputs", "configurations"], "Every geometry, camera calibration, representation, anchor camera and clone, and set of calibrated parameters.",
  RUN + "wrong derivatives leave a run that merely drifts more.",
  ["ov_msckf/src/update/UpdaterHelper.cpp", "ov_core/src/cam/CamRadtan.h", "ov_core/src/cam/CamEqui.h", "ov_core/src/types/Landmark.cpp"],
  [("get_feature_jacobian_full / get_feature_jacobian_representation", "ov_msckf/src/update/UpdaterHelper.cpp")],
  ["returned Jacobians, residual and variable order, against numerical differentiation of an independent projection model"])

p("S07", "Feature elimination and measurement compression preserve information",
  "Eliminating a feature from its linearized measurements leaves a system whose information and information vector about the remaining state equal those obtained by marginalizing an unknown feature out of the full system. Compressing a tall measurement system leaves its information matrix and information vector unchanged while never producing more rows than columns. Elimination handles every system at least as tall as its feature block and compression every number of rows and columns, including systems with fewer rows than columns, without reading or writing out of range.",
  ["inputs"], "Every well-conditioned Jacobian/residual size and content, including minimal, square and rank-deficient state Jacobians.",
  RUN + "an orthogonality loss in elimination only changes estimation quality.",
  ["ov_msckf/src/update/UpdaterHelper.cpp"],
  [("nullspace_project_inplace", "ov_msckf/src/update/UpdaterHelper.cpp"), ("measurement_compress_inplace", "ov_msckf/src/update/UpdaterHelper.cpp")],
  ["matrices before and after, compared through H'H and H'r"])

p("S08", "Visual updates use each accepted measurement once and gate outliers",
  "An update with tracked features equals one joint Gaussian update with exactly the accepted features: features that cannot be triangulated or whose residual fails the configured chi-squared gate contribute nothing, and consistent features are accepted. Every feature handed to the update is marked as consumed or returned to the caller as specified so the same measurement is never used twice, and measurements outside the window are ignored. Adding a new map landmark gives it the position, uncertainty and correlations of the joint Gaussian estimate, updating existing landmarks never increases the uncertainty of any variable, and landmarks that repeatedly fail the gate are marked for removal.",
  ["inputs", "histories", "configurations"], "Every set of feature tracks (inliers, outliers, too short, out of window, degenerate) for every representation and limit on features per update.",
  RUN + "double use of a measurement or a broken gate still terminates normally.",
  ["ov_msckf/src/update/UpdaterMSCKF.cpp", "ov_msckf/src/update/UpdaterSLAM.cpp", "ov_msckf/src/update/UpdaterHelper.cpp"],
  [("UpdaterMSCKF::update", "ov_msckf/src/update/UpdaterMSCKF.cpp"), ("UpdaterSLAM::update / delayed_init", "ov_msckf/src/update/UpdaterSLAM.cpp")],
  ["feature list and feature flags after the update, state mean and covariance against an independent dense update"])

p("S09", "Changing a landmark's representation or anchor never moves the landmark",
  "For every supported representation, setting a landmark from a 3D position and reading it back returns that position for both the current and the first estimate. Re-anchoring a map landmark to another pose in the window leaves its global position and that position's uncertainty and correlations unchanged to first order, and it leaves every other state value unchanged. Landmarks whose anchor pose is about to leave the window are re-anchored to a pose that stays, and landmarks anchored elsewhere are untouched.",
  ["inputs", "histories", "configurations"], "Every landmark position, anchor pose and camera, representation, first estimate and covariance.",
  RUN + "a landmark that jumps when re-anchored only perturbs the estimate.",
  ["ov_core/src/types/Landmark.cpp", "ov_core/src/types/LandmarkRepresentation.h", "ov_msckf/src/update/UpdaterSLAM.cpp"],
  [("Landmark::get_xyz / set_from_xyz", "ov_core/src/types/Landmark.cpp"), ("UpdaterSLAM::change_anchors", "ov_msckf/src/update/UpdaterSLAM.cpp")],
  ["landmark values and global position covariance before and after"])

p("S10", "The feature database returns, keeps and removes exactly what was asked",
  "For any history of updates, queries and cleanups, the feature database returns exactly the features that a plain map of measurements says contain, or do not contain, measurements older, newer or at the given time, removes exactly the ones asked for, and never loses, duplicates, reorders or mixes up a stored measurement between features, cameras or times. Cleaning up measurements removes all and only those at or before (or at) the given time, and features consumed by an update disappear at the next cleanup. Disparity statistics over two frames are the mean and deviation of exactly the tracks common to both, and are reported as unavailable when fewer than two exist. Concurrent insertions, queries and cleanups from several threads behave like some sequential order of those operations.",
  ["histories", "schedules"], "Every history of operations with shared ids, cameras, times and flags, run sequentially and from several threads.",
  "No existing test queries the database directly; simulation runs only insert in time order from one thread.",
  ["ov_core/src/feat/FeatureDatabase.cpp", "ov_core/src/feat/FeatureDatabase.h", "ov_core/src/feat/Feature.cpp"],
  [("mutex-protected id to feature map", "ov_core/src/feat/FeatureDatabase.cpp"), ("clean_old / invalid / older_measurements", "ov_core/src/feat/Feature.cpp")],
  ["results of every public database call against a reference map"])

p("S11", "Triangulated features match the true point or are rejected",
  "Given exact observations of a point from sufficiently separated camera poses, linear triangulation and its nonlinear refinement return the true point in both the global and the anchor frame, and given noisy observations the refinement does not increase the reprojection error of its starting point. A point outside the configured depth range or behind the camera is reported as failed rather than returned, and so is one with badly conditioned geometry by the full linear method and one with too little baseline by the refinement. The result does not depend on the order in which cameras or unrelated poses are supplied.",
  ["inputs", "configurations"], "Every point, set of camera poses, number of cameras, noise level and initializer option setting.",
  RUN + "bad triangulations are silently thrown away by the chi-squared gate.",
  ["ov_core/src/feat/FeatureInitializer.cpp", "ov_core/src/feat/FeatureInitializerOptions.h"],
  [("single_triangulation / single_triangulation_1d / single_gaussnewton", "ov_core/src/feat/FeatureInitializer.cpp")],
  ["return value and feature position against the generating geometry"])

p("S12", "Camera models project, unproject and differentiate consistently",
  "For both supported lens models, distorting a ray and undistorting the pixel returns the same ray over the whole field of view where the model is invertible, and the projection equals the published model's formula. The Jacobians with respect to the ray and to the eight intrinsic parameters equal the derivative of the projection everywhere, including at the image centre. The single, double and image-library variants of each operation agree, and changed intrinsics take effect in all of them.",
  ["inputs", "configurations"], "Every intrinsic/distortion setting in the practical range and every ray in the field of view, including the optical axis.",
  "No existing test checks a camera model; the simulator uses the same code to generate and to consume measurements so errors cancel.",
  ["ov_core/src/cam/CamBase.h", "ov_core/src/cam/CamRadtan.h", "ov_core/src/cam/CamEqui.h"],
  [("distort_f / undistort_f / compute_distort_jacobian", "ov_core/src/cam")],
  ["public camera functions against an independent implementation"])

p("S13", "Rotation algebra and manifold updates obey the group laws",
  "Conversions between quaternions, rotation matrices, rotation vectors, Euler angles and rigid transforms are mutually consistent, inverse to each other, stay on the manifold and are continuous through zero and near half-turn rotations, with quaternion products matching matrix products. The left and right Jacobians are the derivatives of the exponential map. Updating any state variable composes the error on the documented side, keeps unit norm, keeps cached rotation matrices in step with the quaternion, and updates the current estimate without touching the first estimate.",
  ["inputs"], "Every rotation vector, quaternion and transform, including tiny and near-pi angles, and every sequence of variable updates.",
  "No existing test checks the algebra directly; all modules share it, so sign conventions cancel in end-to-end runs.",
  ["ov_core/src/utils/quat_ops.h", "ov_core/src/types/JPLQuat.h", "ov_core/src/types/PoseJPL.h", "ov_core/src/types/IMU.h", "ov_core/src/types/Vec.h"],
  [("exp/log maps and Jacobians", "ov_core/src/utils/quat_ops.h"), ("Type::update / set_value / set_fej", "ov_core/src/types")],
  ["function values against an independent implementation (matrix exponential, numerical derivatives)"])

p("S14", "Inertial preintegration equals direct integration and its own derivatives",
  "For both preintegration models and any sequence of inertial readings, the preintegrated rotation, velocity and position changes equal those of direct high-resolution integration of the same piecewise-constant readings with the same bias linearization point. The stored bias (and orientation) Jacobians are the derivatives of those quantities with respect to the linearization point, and the measurement covariance equals the propagated sensor noise, stays symmetric and positive semi-definite and scales with the noise densities. For physical sensor noise the results depend only on the readings and linearization point, and under the constant-reading model not on how the interval was split.",
  ["inputs", "histories", "configurations"], "Every reading sequence, interval length, bias, near-zero and large rotation rate, averaging option and Jacobian option.",
  "The existing tests reach preintegration only inside dynamic initialization, where errors are absorbed by the optimizer.",
  ["ov_core/src/cpi/CpiV1.cpp", "ov_core/src/cpi/CpiV2.cpp", "ov_core/src/cpi/CpiBase.h"],
  [("CpiV1::feed_IMU", "ov_core/src/cpi/CpiV1.cpp"), ("CpiV2::feed_IMU", "ov_core/src/cpi/CpiV2.cpp")],
  ["public preintegration results after each reading"])

p("S15", "Simulated trajectories are smooth and their derivatives are consistent",
  "The spline fitted to a pose sequence yields poses, velocities and accelerations that are mutually consistent: velocity and acceleration are the time derivatives of the pose wherever the spline is defined, including across knots, and the pose stays close to the fitted poses. Inside its valid time range every query succeeds and outside it every query reports failure, regardless of irregular spacing, unsorted input or repeated timestamps. The same input gives the same spline.",
  ["inputs"], "Every pose sequence (spacing, duplicates, order, rotation speed) and query time, including knot and range boundaries.",
  RUN + "a wrong acceleration only looks like a poorer estimator.",
  ["ov_core/src/sim/BsplineSE3.cpp", "ov_core/src/sim/BsplineSE3.h"],
  [("feed_trajectory / get_pose / get_velocity / get_acceleration", "ov_core/src/sim/BsplineSE3.cpp")],
  ["returned poses and derivatives against numerical differentiation"])

p("S16", "The simulator emits reproducible measurements of its own ground truth",
  "The simulator emits inertial and camera measurements in time order at the configured rates; with noise disabled the inertial readings equal the spline's motion expressed through the true calibration, and every camera measurement is the projection of a fixed world point within the image and range limits, at the camera time shifted by the true time offset. With noise enabled the residuals have the configured standard deviations and biases follow the configured random walk. Runs with equal seeds and configuration are identical, seeds of one kind change only what they control, and stereo cameras share feature identities exactly when stereo is enabled.",
  ["configurations", "inputs"], "Every seed, rate, noise setting, calibration (intrinsics, extrinsics, time offset, inertial intrinsics), trajectory and camera count.",
  "test_sim_repeat compares one configuration with itself; no test compares measurements with the ground truth.",
  ["ov_msckf/src/sim/Simulator.cpp", "ov_init/src/sim/SimulatorInit.cpp"],
  [("get_next_imu / get_next_cam / get_state / project_pointcloud", "ov_msckf/src/sim/Simulator.cpp")],
  ["emitted measurements, ground-truth states and true parameters"])

p("S17", "The estimator tracks the truth within its own reported uncertainty",
  "In simulation with correctly specified noise, from a ground-truth start, the estimated orientation, position, velocity, biases and calibration stay within a small bounded error of the truth, and the errors are statistically consistent with the reported covariance (normalized errors near their expected value). This holds for every integration method, landmark representation, mono and stereo setup and calibration option, and calibration errors introduced at the start shrink when calibration is enabled. Two runs on identical inputs give identical estimates.",
  ["configurations", "histories"], "Every supported filter configuration, noise seed, perturbation seed and trajectory.",
  RUN + "an estimator that diverges but does not abort passes.",
  ["ov_msckf/src/core/VioManager.cpp", "ov_msckf/src/state/Propagator.cpp", "ov_msckf/src/update/UpdaterMSCKF.cpp", "ov_msckf/src/update/UpdaterSLAM.cpp"],
  [("whole filter pipeline", "ov_msckf/src")],
  ["estimate and covariance after each frame against simulator ground truth"])

p("S18", "Hostile or irregular sensor streams never corrupt the estimator",
  "Camera frames that arrive out of order, repeated, late, empty, with unknown or wildly wrong features, or after long gaps, and inertial readings that are duplicated, jittered or dropped, never crash the estimator, never make its state or covariance non-finite or indefinite, and never move its time backwards. Frames older than the filter time change nothing. After the disturbance ends the estimator continues to process new frames.",
  ["fault_sequences", "histories"], "Every sequence of injected stream faults at any point of a run, as long as the inertial stream still covers the propagated interval.",
  RUN + "all inputs are clean, ordered and complete.",
  ["ov_msckf/src/core/VioManager.cpp", "ov_msckf/src/state/Propagator.cpp", "ov_core/src/track/TrackSIM.cpp"],
  [("out-of-order frame check", "ov_msckf/src/core/VioManager.cpp"), ("chi-squared gates", "ov_msckf/src/update")],
  ["process survival, estimator state and covariance after each fed measurement"])

p("S19", "No memory error or undefined behaviour in any processing path",
  "Running any part of the system (estimation, tracking on real images, initialization, simulation, preintegration, evaluation and file loading) on any valid or malformed-but-accepted input performs no out-of-bounds or use-after-free access, no leak of growing memory, no uninitialized branch that changes results, and no undefined arithmetic. Destroying and recreating components at any time between calls is safe. Container and matrix accesses stay within bounds.",
  ["inputs", "histories", "configurations"], "Every workload over all modules with address and undefined-behaviour sanitizers and checked containers.",
  "The tests run an optimized build without sanitizers on a few inputs, so silent out-of-bounds accesses pass.",
  ["ov_core/src", "ov_init/src", "ov_msckf/src", "ov_eval/src"],
  [("bounds checks and ownership across all modules", "ov_*/src")],
  ["sanitizer reports"])

p("S20", "Concurrent sensor callbacks are free of data races and deadlocks",
  "When inertial readings arrive on one thread while camera frames are processed on another and results are queried from others, as the multi-threaded mode allows, shared buffers (inertial queues, feature database, track history, camera intrinsics) are never accessed without synchronization and no call deadlocks. No inertial reading or feature measurement is lost or duplicated through concurrency. Parallel stereo tracking gives thread-safe results.",
  ["schedules"], "Every interleaving of inertial feeding, image processing, fast prediction, initialization in the background and result queries.",
  "All existing tests are single threaded.",
  ["ov_msckf/src/core/VioManager.cpp", "ov_msckf/src/core/VioManagerHelper.cpp", "ov_msckf/src/state/Propagator.h", "ov_core/src/feat/FeatureDatabase.cpp", "ov_core/src/track/TrackBase.cpp", "ov_msckf/src/update/UpdaterZeroVelocity.h"],
  [("imu_data_mtx, state mutex, feature database mutex, tracker mutexes", "ov_msckf/src, ov_core/src")],
  ["race detector reports; sequence contents after concurrent runs"])

p("S21", "Visual front-ends produce unique, in-image, correctly stored tracks",
  "For any image sequence, the feature trackers give every live track in an image a unique identity, place every stored and currently reported point inside the image and outside masked areas of newly detected points, keep newly detected points apart by the configured spacing, never exceed the configured number of features by more than one grid's rounding, and store exactly one measurement per track, camera and frame with its matching undistorted coordinates. On images related by a known motion the tracks follow that motion, and outliers to the epipolar geometry are dropped. Identities are never reused for new points and a stereo pair shares the identity of the same physical point.",
  ["inputs", "histories", "configurations"], "Every image sequence (texture, blank, noise, masks, sudden change), camera count, tracker type and grid setting.",
  "No existing test feeds an image to any tracker.",
  ["ov_core/src/track/TrackKLT.cpp", "ov_core/src/track/TrackDescriptor.cpp", "ov_core/src/track/TrackAruco.cpp", "ov_core/src/track/TrackBase.cpp", "ov_core/src/track/Grider_GRID.h"],
  [("feed_monocular / feed_stereo, perform_detection, perform_matching", "ov_core/src/track")],
  ["feature database and last observations after each frame"])

p("S22", "Static initialization recovers gravity alignment and biases or refuses",
  "When the device rests and then moves (or rests, if waiting for motion is not requested), static initialization returns an orientation that maps measured gravity to the vertical, a gyroscope bias equal to the mean rate, an accelerometer bias equal to the residual after removing gravity, zero position and velocity, the time of the last reading of the static window, and a positive definite covariance in matching variable order. When there is too little data, when the static window contains motion, or when no motion follows while motion is required, it refuses and leaves its outputs unusable rather than wrong. The result depends only on the readings in its window.",
  ["inputs", "configurations"], "Every gravity direction, bias, noise level, window length, threshold and motion profile.",
  "The existing tests never run static initialization on its own.",
  ["ov_init/src/static/StaticInitializer.cpp", "ov_init/src/init/InertialInitializer.cpp", "ov_init/src/utils/helper.h"],
  [("StaticInitializer::initialize", "ov_init/src/static/StaticInitializer.cpp"), ("InitializerHelper::gram_schmidt", "ov_init/src/utils/helper.h")],
  ["return value, timestamp, state vector and covariance of the initializer"])

p("S23", "Dynamic initialization recovers the true motion state or refuses",
  "Given enough feature tracks and inertial readings of a moving device, dynamic initialization returns, in a gravity-aligned frame, an orientation, velocity, biases, window poses and feature positions that agree with the truth within a small error, at the time of the newest image, with a covariance that is symmetric, positive definite and ordered like the returned variables. When there are too few features, poses, readings or too little motion it refuses without changing the caller's inertial state. Repeating it on the same data gives the same decision.",
  ["inputs", "configurations"], "Every simulated trajectory segment, camera setup, noise seed, window and pose-count option.",
  "test_dynamic_init only checks that the executable exits, whatever the error.",
  ["ov_init/src/dynamic/DynamicInitializer.cpp", "ov_init/src/utils/helper.h", "ov_init/src/ceres"],
  [("DynamicInitializer::initialize", "ov_init/src/dynamic/DynamicInitializer.cpp")],
  ["initializer outputs against simulator ground truth"])

p("S24", "Optimization factors have correct residuals, weights and derivatives",
  "Every factor used in the initialization optimizer evaluates to a zero residual at parameters consistent with its measurement, has derivatives equal to the numerical derivative of its residual on the parameter manifold, weights its residual by the inverse square root of the measurement covariance, and a prior's cost has the given gradient at its linearization point. The orientation manifold's plus operation agrees with the filter's own orientation update. Requesting only some of the derivatives does not change the others.",
  ["inputs"], "Every parameter value, measurement and covariance.",
  "test_dynamic_mle checks one scenario's convergence only.",
  ["ov_init/src/ceres/Factor_GenericPrior.cpp", "ov_init/src/ceres/Factor_ImageReprojCalib.cpp", "ov_init/src/ceres/Factor_ImuCPIv1.cpp", "ov_init/src/ceres/State_JPLQuatLocal.cpp"],
  [("Evaluate of each cost function", "ov_init/src/ceres")],
  ["residual and Jacobian arrays of each factor"])

p("S25", "Zero-velocity updates fire only when at rest and only reduce uncertainty",
  "A zero-velocity update is applied only if the inertial readings since the last update are statistically consistent with rest (or image disparity says so) and the estimated speed is below its limit; a clearly moving device is never treated as resting. When applied, the filter time advances to the frame time without adding a clone, the biases' uncertainty grows by their random walk, and the correction is the one the rest hypothesis implies (no rotation, only gravity and biases measured), so that no uncertainty grows by more than that random walk. While it is refused, state and covariance are unchanged, and inertial readings still needed are kept. A repeated frame or one older than the filter is never accepted.",
  ["inputs", "histories", "configurations"], "Every rest/motion profile, noise level, threshold and time offset.",
  "One existing run enables zero-velocity updates and only its exit status is checked.",
  ["ov_msckf/src/update/UpdaterZeroVelocity.cpp", "ov_msckf/src/core/VioManager.cpp"],
  [("UpdaterZeroVelocity::try_update", "ov_msckf/src/update/UpdaterZeroVelocity.cpp")],
  ["return value, state and covariance before and after"])

p("S26", "Configuration files are loaded exactly as written",
  "Every option written in the configuration files is loaded with exactly the written value, under the documented name, type and sensor, in any order and with any accepted boolean spelling; calibration transforms given in either direction, camera downsampling and inertial intrinsic conventions are converted as documented. A missing or malformed (non-numeric for a number, unrecognized for a boolean) required option is reported as unsuccessful and leaves the default, a missing optional one does not, and invalid choices terminate with an error. Loading never mixes values between cameras or between options.",
  ["inputs", "configurations"], "Every assignment of option values, camera counts, models and missing or malformed keys.",
  "The tests only load variants of one configuration file and never compare what was loaded.",
  ["ov_core/src/utils/opencv_yaml_parse.h", "ov_msckf/src/core/VioManagerOptions.h", "ov_msckf/src/state/StateOptions.h", "ov_init/src/init/InertialInitializerOptions.h", "ov_core/src/feat/FeatureInitializerOptions.h"],
  [("YamlParser::parse_config / parse_external", "ov_core/src/utils/opencv_yaml_parse.h"), ("print_and_load_*", "ov_msckf/src/core/VioManagerOptions.h")],
  ["loaded option structures against randomly generated files"])

p("S27", "Trajectory evaluation recovers alignments and reports true errors",
  "Aligning a trajectory with a transformed copy of itself recovers the applied transform for every alignment type, and for noisy data no transform of that type gives a smaller squared position error. Reported absolute, relative and normalized errors and their statistics equal an independent computation from the definitions, are zero for equal trajectories, and do not change when both trajectories, or the estimate within the alignment's freedom, are transformed. Timestamp association pairs each estimate with at most one ground-truth pose, the closest within the tolerance, never reusing one.",
  ["inputs"], "Every pair of trajectories, alignment type, timestamp pattern, segment length and covariance.",
  "No existing test runs the evaluation package.",
  ["ov_eval/src/alignment/AlignUtils.cpp", "ov_eval/src/alignment/AlignTrajectory.cpp", "ov_eval/src/calc/ResultTrajectory.cpp", "ov_eval/src/utils/Statistics.h"],
  [("align_umeyama / perform_association", "ov_eval/src/alignment"), ("calculate_ate / rpe / nees", "ov_eval/src/calc/ResultTrajectory.cpp")],
  ["returned transforms, associations and statistics"])

p("S28", "Dataset, trajectory and timing files are read exactly and completely",
  "Reading any well-formed trajectory, ground-truth, simulation or timing file returns every data row once, in file order, with every number and covariance entry in its place and units, ignoring comments, blank fields and incomplete rows; a file whose rows differ in width where the format fixes one width terminates with an error. Ground-truth lookup returns the state closest in time within its tolerance and fails otherwise, and unreadable or empty files terminate with an error rather than returning data. The total length equals the sum of the distances between consecutive poses.",
  ["inputs"], "Every file of the documented formats with random values, spacing, comments, short and over-long rows.",
  "The existing tests only read the bundled trajectories and never check the values.",
  ["ov_eval/src/utils/Loader.cpp", "ov_core/src/utils/dataset_reader.h"],
  [("load_data / load_data_csv / load_simulation / load_timing_*", "ov_eval/src/utils/Loader.cpp"), ("load_gt_file / get_gt_state / load_simulated_trajectory", "ov_core/src/utils/dataset_reader.h")],
  ["returned vectors against the generated file content"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
