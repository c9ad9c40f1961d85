"""What each check builds, runs and requires."""
CORE_TYPES = ["ov_core/src/types/Landmark.cpp"]
PRINT = ["ov_core/src/utils/print.cpp"]
CHECKS = {}
NOT_APPLICABLE = {}

CHECKS["S13"] = dict(
    harness=["s13_math.cpp"], sources=[], libs=[],
    rule="every conversion, product, Jacobian and variable update on a random rotation/state is compared with an independent formula; distinct = (function group, angle regime and decade, sign octant)",
    require={"cases": {"quick": 20000, "thorough": 500000}, "regime:pi": 100, "regime:tiny": 100, "regime:nearpi": 100},
    technique="online reference-oracle monitor: randomized executions of the real rotation and variable code compared call by call with an independent implementation (matrix exponential, numerical derivatives)",
    note="held on the generated rotations and update sequences; near half-turn rotations are compared to 5e-4 (what the closed form delivers)")

STATE = ["ov_msckf/src/state/State.cpp", "ov_msckf/src/state/StateHelper.cpp"]
CHECKS["S01"] = dict(
    harness=["s01_state.cpp"], sources=STATE + CORE_TYPES + PRINT, libs=["cv", "boost"],
    rule="after every StateHelper operation of a random history the real values, first estimates, covariance and block layout are compared with a dense Gaussian model (Joseph form, explicit Jacobians); distinct = (operation, covariance size, number of variables, clones and landmarks, options)",
    require={"cases": {"quick": 240, "thorough": 6000}, "op:update": 500, "op:propagate": 300, "op:augment": 500, "op:clone": 100, "op:initialize": 200, "op:initialize-invertible": 100,
             "op:initialize-gated": 10, "op:marginalize": 100, "op:marg-old-clone": 30, "op:marg-slam": 50, "op:query": 100, "op:set-cov": 50},
    technique="model-based runtime monitor: random operation histories on the real state, each step compared with a dense reference Gaussian",
    note="held on every operation of the generated histories; updates near the chi-squared gate of delayed initialization are not judged")

HELPER = ["ov_msckf/src/update/UpdaterHelper.cpp"]
CHECKS["S06"] = dict(
    harness=["s06_jacobians.cpp"], sources=HELPER + STATE + CORE_TYPES + PRINT,
    rule="every row pair of the residual and Jacobians built for a random feature track is compared with an independent projection and its fourth order numerical derivative; distinct = (representation, FEJ, calibrated quantities, cameras, track length, anchor camera)",
    require={"cases": {"quick": 2400, "thorough": 40000}, "rep:G3D": 100, "rep:GINV": 100, "rep:A3D": 100, "rep:AINV": 100, "rep:AMSCKF": 100, "rep:ASINGLE": 100, "fisheye": 300, "radtan": 300},
    technique="online reference-oracle monitor: Jacobians and residuals returned by the real code compared with numerical derivatives of an independent measurement model",
    note="held on every generated track; derivatives compared to 2e-5 relative, pixels to 3e-3 (the code projects in single precision)")
CHECKS["S07"] = dict(
    harness=["s07_nullspace.cpp"], sources=HELPER + STATE + CORE_TYPES + PRINT,
    rule="information matrix, information vector and residual energy before and after each call are compared through an independent Householder projection; distinct = (operation, sizes, sparsity or rank structure)",
    require={"cases": {"quick": 24000, "thorough": 400000}, "nullspace": 5000, "compress-tall": 2000, "compress-fat": 2000, "compress-square": 100},
    technique="online conservation monitor: information matrix and vector compared before and after each real call on randomized and degenerate systems",
    note="held on every generated system; the feature block has full column rank and at least as many rows as columns, as every caller guarantees")
FEATINIT = ["ov_core/src/feat/FeatureInitializer.cpp", "ov_core/src/feat/Feature.cpp"]
CHECKS["S09"] = dict(
    harness=["s09_anchor.cpp"], sources=["ov_msckf/src/update/UpdaterSLAM.cpp"] + HELPER + STATE + FEATINIT + CORE_TYPES + PRINT,
    rule="global position, its covariance and its cross-covariances of every landmark before and after an anchor change, computed with independent numerical derivatives; distinct = (representation, FEJ, extrinsic calibration, cameras, window)",
    require={"cases": {"quick": 800, "thorough": 20000}, "roundtrips": 4000, "moved:A3D": 40, "moved:AINV": 40, "moved:AMSCKF": 40, "moved:ASINGLE": 40, "kept": 200},
    technique="online invariance monitor: landmark position and uncertainty recomputed independently before and after each real anchor change",
    note="held on every generated anchor change; for the single-depth representation only the uncertainty along the ray can be and is compared")
CHECKS["S12"] = dict(
    harness=["s12_cameras.cpp"], sources=STATE + CORE_TYPES + PRINT,
    rule="every projection, inverse and Jacobian for random lenses and rays is compared with the published formula and its numerical derivative; distinct = (model, which coefficients are set, radius regime, direction octant)",
    require={"cases": {"quick": 8000, "thorough": 200000}, "fish:centre": 500, "radtan:centre": 500, "inverted": 20000},
    technique="online reference-oracle monitor: camera calls compared with the published lens formulas and numerical derivatives",
    note="held for all generated lenses and rays; inversion is judged where the lens is comfortably invertible, with the accuracy the library's iteration can reach")
CHECKS["S14"] = dict(
    harness=["s14_cpi.cpp"], sources=["ov_core/src/cpi/CpiV1.cpp", "ov_core/src/cpi/CpiV2.cpp"], libs=[],
    rule="means, Jacobians and covariance of a random reading sequence are compared with quadrature, numerical derivatives of the real output and an independent noise propagation; distinct = (model, averaging, Jacobian form, rate regime, length class, constant readings, gravity, axis aligned)",
    require={"cases": {"quick": 2400, "thorough": 60000}, "covariances": 600, "splits": 300, "orientation-jacobians": 800, "regime:0": 200, "regime:1": 200, "regime:2": 200, "model:2:closed": 100, "model:2:avg": 100},
    technique="online reference-oracle monitor: preintegrated quantities of the real code compared with direct high-resolution integration and numerical derivatives of the same code",
    note="held on every generated reading sequence; model 2 with averaging linearizes its gravity term at the interval start and is compared to that accuracy")
CHECKS["S15"] = dict(
    harness=["s15_spline.cpp"], sources=["ov_core/src/sim/BsplineSE3.cpp"] + PRINT, libs=["boost"],
    rule="poses, velocities and accelerations at random times of random trajectories are compared with an independently built spline and with numerical derivatives; distinct = (sampling, motion, query regime, inside or outside, control spacing, length)",
    require={"cases": {"quick": 900, "thorough": 20000}, "inside": 5000, "outside": 1500, "derivatives": 5000, "knots": 2000, "closeness": 500, "sampling:3": 50, "sampling:5": 50},
    technique="online reference-oracle monitor: spline queries of the real code compared with an independent spline, numerical derivatives and exact range predicates",
    note="held on every generated trajectory; times within rounding of the ends of the valid range are not judged")
CERES = ["ov_init/src/ceres/Factor_GenericPrior.cpp", "ov_init/src/ceres/Factor_ImageReprojCalib.cpp", "ov_init/src/ceres/Factor_ImuCPIv1.cpp", "ov_init/src/ceres/State_JPLQuatLocal.cpp"]
CPI = ["ov_core/src/cpi/CpiV1.cpp", "ov_core/src/cpi/CpiV2.cpp"]
CHECKS["S24"] = dict(
    harness=["s24_factors.cpp"], sources=CERES + CPI + STATE + CORE_TYPES + PRINT, libs=["cv", "ceres", "boost"],
    rule="residual, weight and every Jacobian block (all and a random subset) of each factor at random parameters are compared with an independent residual and its numerical derivative; distinct = (factor, lens or variable types, consistent or not, bias moved, scale)",
    require={"cases": {"quick": 4000, "thorough": 120000}, "reproj": 900, "imu": 800, "prior": 900, "manifold": 900, "prior:gradient": 200, "imu:consistent": 200, "reproj:consistent": 100},
    technique="online reference-oracle monitor: factor evaluations compared with independent residuals, Mahalanobis weights and numerical derivatives on the manifold",
    note="held at every generated parameter; the preintegration factor is judged for relative rotations well below half a turn")
FEATDB = ["ov_core/src/feat/FeatureDatabase.cpp", "ov_core/src/feat/Feature.cpp"]
CHECKS["S10"] = dict(
    harness=["s10_db.cpp"], sources=FEATDB + PRINT, libs=["cv", "boost"],
    phases=[dict(mode="sequential"), dict(mode="concurrent", parallel=3), dict(mode="concurrent", variant="tsan", parallel=3)],
    rule="after every operation of a random history the whole database is compared entry by entry with a plain map; under concurrent writers, removers, cleaners and readers every measurement is accounted for exactly once, also under the race detector; distinct = (operation, flags, result size, database size)",
    require={"cases": {"quick": 2500, "thorough": 60000}, "op:older:nonempty": 500, "op:not-newer:nonempty": 500, "op:containing:nonempty": 500, "op:append": 500, "op:clean-exact": 500, "op:disparity": 100, "op:disparity-none": 50,
             "concurrent:removed": 2000, "concurrent:copies": 1000},
    technique="model-based runtime monitor over random operation histories, plus a conservation oracle and ThreadSanitizer over concurrent stress",
    note="held on every generated history and on the thread interleavings that occurred; measurement times of a track increase, as every tracker supplies them")
CHECKS["S11"] = dict(
    harness=["s11_triang.cpp"], sources=FEATINIT + PRINT, libs=["cv", "boost"],
    rule="point, frames, anchor and accept/reject decision of linear triangulation and of its refinement are compared with an independent least-squares solution, the configured limits and the true point; distinct = (geometry, cameras, observations, depth, baseline, noise, linear method)",
    require={"cases": {"quick": 16000, "thorough": 300000}, "linear:good": 4000, "linear:bad": 1500, "linear:exact": 800, "refine:good": 2000, "refine:bad": 400, "refine:minimum": 800, "order:same-anchor": 1000, "order:other-anchor": 50,
             "linear:bad:kind3": 100, "linear:bad:kind5": 100},
    technique="online reference-oracle monitor: triangulation results and decisions compared with an independent solver on randomized good, noisy and degenerate geometries",
    note="held on every generated geometry; decisions within rounding of a limit are not judged, and the one-dimensional method only claims depth limits")
EVAL = ["ov_eval/src/utils/Loader.cpp", "ov_eval/src/alignment/AlignTrajectory.cpp", "ov_eval/src/alignment/AlignUtils.cpp", "ov_eval/src/calc/ResultTrajectory.cpp"]
CHECKS["S28"] = dict(
    harness=["s28_loaders.cpp"], sources=["ov_eval/src/utils/Loader.cpp"] + PRINT, libs=["boost"],
    rule="files of every kind with random contents, comments, blank fields, incomplete and ragged rows are written, read back and compared value by value; unusable files are read in a child process whose exit status is checked; distinct = (file kind, blank fields, columns, rows)",
    require={"cases": {"quick": 3200, "thorough": 60000}, "rows": {"quick": 30000, "thorough": 500000}, "file:trajectory": 500, "file:csv": 200, "file:groundtruth": 200, "file:simulation": 200, "file:flamegraph": 200, "file:percent": 200,
             "refused": 200, "lookup:found": 1000, "lookup:none": 200},
    technique="online reference-oracle monitor: every value returned by the real readers compared with the generated file contents, process outcomes of refused files observed",
    note="held on every generated file; numbers are compared exactly as the C library converts their text")
CHECKS["S27"] = dict(
    harness=["s27_eval.cpp"], sources=EVAL + PRINT, libs=["boost"],
    rule="alignments, associations, error series and statistics of random trajectory pairs (also written to and read from files) are compared with independent solvers and definitions; distinct = (operation, method, shape or densities, covariances, size)",
    require={"cases": {"quick": 4000, "thorough": 80000}, "align:posyaw": 100, "align:se3": 100, "align:sim3": 100, "align:posyawsingle": 100, "align:se3single": 100, "align:noisy": 500, "align:subset": 100,
             "association:pairs": 3000, "association:unmatched": 3000, "rpe:pairs": 3000, "results:nees": 200, "results:invariance": 200, "results:equal": 50, "statistics": 800},
    technique="online reference-oracle monitor: alignment optimality, association, error series and statistics of the real code compared with independent computations, plus invariance under transforms",
    note="held on every generated trajectory pair; orientation errors near half a turn, Euler angles near the singularity and exact ties of times or distances are not judged")
CHECKS["S26"] = dict(
    harness=["s26_config.cpp"], sources=["ov_core/src/track/TrackBase.cpp", "ov_core/src/feat/FeatureDatabase.cpp", "ov_core/src/feat/Feature.cpp"] + CORE_TYPES + PRINT,
    rule="random configuration file sets (every option, spelling, order, camera count, transform direction, missing, malformed and invalid entries) are written, loaded by the real option structures and compared value by value; distinct = (kind, cameras, choices, what was left out)",
    require={"cases": {"quick": 1600, "thorough": 40000}, "kind:0": 300, "kind:1": 200, "kind:2": 100, "kind:3": 100, "kind:4": 100, "masks": 50, "cameras": 2000, "parser": 1000, "invalid:2": 10, "invalid:6": 10},
    technique="online reference-oracle monitor: options loaded by the real parsers compared with the generated files, process outcomes of refused files observed",
    note="held on every generated file set; YAML syntax itself (OpenCV's reader) is not under test")
PROP = ["ov_msckf/src/state/Propagator.cpp"]
CHECKS["S03"] = dict(
    harness=["s03_propagate.cpp"], sources=PROP + STATE + CORE_TYPES + PRINT,
    rule="reading selection and propagated mean of random streams and filter histories are compared with an independent selection, an independent step integrator and a fine integration of the calibrated model; everything else must not move; distinct = (method, model, calibration, motion, stream, interval and end regime, readings)",
    require={"cases": {"quick": 4000, "thorough": 100000}, "selections": 8000, "propagations": 6000, "method:rk4": 1500, "method:analytical": 1500, "method:discrete": 1500, "duplicates": 300, "extrapolated": 500, "offset-changes": 1000},
    technique="online reference-oracle monitor: reading selection and propagated mean of the real filter compared with independent interpolation and high-resolution integration",
    note="held on every generated stream; the interval start is covered by readings, as every caller guarantees")
CHECKS["S04"] = dict(
    harness=["s04_propcov.cpp"], sources=PROP + STATE + CORE_TYPES + PRINT,
    rule="state transition and injected noise, read out of the covariances the real propagation produces, are compared with numerical derivatives of the mean the same code propagates; random covariances are mapped, split and cloned consistently; distinct = (method, model, calibration, motion, first-estimate relation, steps)",
    require={"cases": {"quick": 1200, "thorough": 30000}, "transition:rk4": 200, "transition:analytical": 200, "transition:discrete": 200, "transition:fej-differs": 150, "noise": 200, "splits": 100},
    technique="online reference-oracle monitor: covariance propagation of the real filter compared with numerical derivatives of its own mean propagation and an independent noise model",
    note="held on every generated interval up to the discretization error of the method; at rates below half a degree per second the analytical method approximates and is judged to first order")
CHECKS["S05"] = dict(
    harness=["s05_fast.cpp"], sources=PROP + STATE + CORE_TYPES + PRINT,
    rule="every fast prediction in random histories of requests, readings, filter updates and invalidations is compared with one independent integration from the filter state, and the filter before and after it; distinct = (model, intrinsics, request times, first or later, last operations)",
    require={"cases": {"quick": 2400, "thorough": 60000}, "requests": 5000, "first": 1500, "later": 2500, "forward": 1000, "backward": 300, "repeated": 50, "updates": 2000, "refused": 200},
    technique="online reference-oracle monitor: fast predictions of the real propagator compared with an independent one-pass integration over random request histories",
    note="held on every generated history; requested times are reached by readings, and the uncertainty is that of the inertial state alone, without correlations to the intrinsics")
CHECKS["S08"] = dict(
    harness=["s08_updates.cpp"], sources=["ov_msckf/src/update/UpdaterSLAM.cpp", "ov_msckf/src/update/UpdaterMSCKF.cpp"] + HELPER + STATE + FEATINIT + CORE_TYPES + PRINT, libs=["cv", "boost"],
    rule="after every visual update the real state, covariance, landmarks and feature bookkeeping are compared with one joint dense Gaussian update by exactly the features that an independent gate accepts; distinct = (operation, representation, FEJ, calibrated quantities, features used and given)",
    require={"cases": {"quick": 800, "thorough": 16000}, "msckf:updates": 400, "msckf:passed": 1000, "msckf:gated": 150, "msckf:short": 100, "msckf:untriangulated": 100, "delayed:added": 400, "delayed:gated": 50, "delayed:tags": 50, "slam:updates": 200, "slam:gated": 50, "slam:tags": 20},
    technique="online reference-oracle monitor: every visual update of the real filter compared with a joint dense Gaussian update built from numerical derivatives",
    note="held on every generated update; decisions within rounding of the gate, and for new landmarks between the gates of the two possible degrees of freedom, follow the code")
CHECKS["S22"] = dict(
    harness=["s22_static.cpp"], sources=["ov_init/src/init/InertialInitializer.cpp", "ov_init/src/static/StaticInitializer.cpp", "ov_init/src/dynamic/DynamicInitializer.cpp"] + CERES + CPI + FEATDB + ["ov_core/src/feat/FeatureInitializer.cpp"] + CORE_TYPES + PRINT, libs=["cv", "ceres", "boost"],
    rule="every decision and result of static initialization on random rest and motion streams is compared with an independent evaluation of the two half windows; readings outside the window are scrambled; distinct = (scenario, waiting, decision, rate, window, attitude)",
    require={"cases": {"quick": 6000, "thorough": 200000}, "accepted": 1500, "refused": 3000, "outside": 500, "front": 2000, "front:accept": 100, "front:refuse-images": 300, "front:accept-no-disparity": 50},
    technique="online reference-oracle monitor: decisions and results of the real initializer compared with an independent computation over the stream it was fed",
    note="held on every generated stream; statistics within rounding of a threshold and readings exactly on a window edge are not judged")
CHECKS["S25"] = dict(
    harness=["s25_zupt.cpp"], sources=["ov_msckf/src/update/UpdaterZeroVelocity.cpp"] + HELPER + PROP + STATE + FEATDB + CORE_TYPES + PRINT, libs=["cv", "boost"],
    rule="every decision and result of random sequences of zero-velocity attempts (rest, rotation, acceleration around the size the gate can see, image motion, speeds, changing time offset, repeated and older frames) is compared with an independent test of the readings and a dense Gaussian update; distinct = (options, decision, reasons, motion, size, rests before)",
    require={"cases": {"quick": 20000, "thorough": 400000}, "accepted:readings": 500, "accepted:disparity": 200, "refused:readings": 500, "refused:speed": 300, "refused:repeated": 100, "refused:older": 100, "tracks-dropped": 50, "resumed": 300},
    rates=[("open decisions that go the other way", "open:otherwise", "open", 0, 0.08, 2000)],
    technique="online reference-oracle monitor: decisions, state, covariance and stored tracks after every attempt compared with an independent evaluation",
    note="held on every generated history; decisions within rounding of the gate are not judged, and with scale and misalignment the result may lie between the exact and the approximate derivative")
CHECKS["S23"] = dict(
    harness=["s23_dynamic.cpp"], sources=["ov_init/src/dynamic/DynamicInitializer.cpp"] + CERES + CPI + FEATDB + STATE + ["ov_core/src/feat/FeatureInitializer.cpp"] + CORE_TYPES + PRINT, libs=["cv", "ceres", "boost"],
    rule="dynamic initialization on random smooth motions with known truth: exact and noisy data, windows, rates, cameras, stereo, time offset, biases, refinement on and off, inflation, and ten kinds of insufficient data (out of process first); results are judged against the truth of the motion; distinct = (kind, cameras, stereo, refinement, calibration, poses, window, points)",
    require={"cases": {"quick": 2000, "thorough": 24000}, "inflated": 50, **{"refusal:%d" % k: 20 for k in range(1, 11)}},
    rates=[("accepts exact data", "accepted:exact", "attempts:exact", 0.35, 1, 300), ("accepts noisy data", "accepted:noisy", "attempts:noisy", 0.35, 1, 150),
           ("repeat decides otherwise", "repeats:other-decision", "repeats", 0, 0.02, 600), ("refined result off the truth", "exact:refined:off", "exact:refined", 0, 0.05, 120),
           ("linear result off the truth", "exact:linear:off", "exact:linear", 0, 0.4, 25),
           ("accepts rough data", "accepted:rough", "attempts:rough", 0.35, 1, 120)] +
          [(g + n, g + k, g + "nees", lo, hi, 40) for g in ("", "rough ") for n, k, lo, hi in
           [("nees high", "nees:high", 0, 0.19), ("nees low", "nees:low", 0, 0.2), ("nees extreme", "nees:extreme", 0, 0.09), ("nees above median", "nees:half", 0.2, 0.65)] +
           [("nees %s above median" % k, "nees:half:" + k, 0.2, 0.65 if k != "gyro" else 0.68) for k in ("orientation", "velocity", "gyro", "accel")] + [("nees %s high" % k, "nees:high:" + k, 0, 0.07) for k in ("orientation", "velocity", "gyro", "accel")]],
    technique="online truth and consistency monitor on the real initializer (form, refusals, repeat, error against covariance) over generated motions; refusals in forked children",
    note="held on every generated scene; data that leave the problem ill-conditioned are judged only in form and as a proportion, since the solver may end in another minimum")

SIM = ["ov_init/src/sim/SimulatorInit.cpp", "ov_msckf/src/sim/Simulator.cpp", "ov_core/src/sim/BsplineSE3.cpp"]
_normal = lambda k, n, pairs=0.02: [("%s %s" % (k, a), k + ":" + b, k, lo, hi, n) for a, b, lo, hi in (("positive", "positive", 0.48, 0.52), ("outer half", "outer", 0.48, 0.52), ("beyond two sigma", "tail", 0.035, 0.056))] + [(k + " neighbours", k + ":pairs-equal", k + ":pairs", 0.5 - pairs, 0.5 + pairs, n)]
CHECKS["S16"] = dict(
    harness=["s16_sim.cpp"], sources=SIM + STATE + CORE_TYPES + PRINT, libs=["cv", "boost"],
    rule="both streams of simulations of random worlds are compared with the true poses, calibration and map the simulator reports, with the statistics of its noise and with what each seed may change; distinct = (cameras, stereo, noise, model, perturbation, rates)",
    require={"cases": {"quick": 1200, "thorough": 20000}, "modelled": 50000, "pixels": 500000, "perturbed": 100, "initializer": 150, **{"seed:%d" % k: 60 for k in range(4)}},
    rates=_normal("gyro-noise", 5000) + _normal("accel-noise", 3000) + _normal("gyro-walk", 20000) + _normal("accel-walk", 20000) + _normal("pixel-noise", 20000) + _normal("perturbation", 3000, 0.05) +
          [("start biases outer half", "start-bias:outer", "start-bias", 0.37, 0.63, 200), ("start biases beyond two sigma", "start-bias:tail", "start-bias", 0, 0.11, 200), ("frames with enough points", "camera-frames:rich", "camera-frames", 0.9, 1, 10000), ("map poses with enough points", "map-poses:enough", "map-poses", 0.999, 1, 5000)],
    technique="online truth monitor: simulated streams compared with an independent measurement model at the simulator's own true states, distribution monitors over all samples, and differential runs over the seeds",
    note="held on every generated world; accelerations are differentiated numerically and compared to the accuracy this allows")

SYSTEM = SIM + CERES + CPI + FEATDB + STATE + HELPER + PROP + CORE_TYPES + PRINT + ["ov_core/src/feat/FeatureInitializer.cpp"] + ["ov_core/src/track/Track%s.cpp" % t for t in ("Base", "Aruco", "Descriptor", "KLT", "SIM")] + \
    ["ov_init/src/init/InertialInitializer.cpp", "ov_init/src/dynamic/DynamicInitializer.cpp", "ov_init/src/static/StaticInitializer.cpp", "ov_msckf/src/core/VioManager.cpp", "ov_msckf/src/core/VioManagerHelper.cpp",
     "ov_msckf/src/update/UpdaterMSCKF.cpp", "ov_msckf/src/update/UpdaterSLAM.cpp", "ov_msckf/src/update/UpdaterZeroVelocity.cpp"]
CHECKS["S02"] = dict(
    harness=["s02_window.cpp"], sources=sorted(set(SYSTEM)), libs=["cv", "ceres", "boost"], cflags=["-O2"],
    rule="after every frame of simulated runs (frames dropped, emptied, thinned, split by camera) window, landmarks, covariance, stored measurements and reported features are checked against the frames that were fed; distinct = configuration",
    require={"cases": {"quick": 600, "thorough": 9000}, "frames": 20000, "full": 4000, "newest": 2000, "landmarks": 20000, "anchored": 10000, "active": 20000, "lost": 500, "made": 1000},
    rates=[("new landmarks where a point was just used for the window", "made:twice", "made", 0, 0.2, 500)],
    technique="online invariant monitor over the public state of the real estimator after every fed frame of randomized simulated runs",
    note="held after every frame of every generated run")

def _truth_rates():
    """how often normalized errors exceed the 50, 95 and 99.9 percent points of their distribution; the bounds are wide, runs are few"""
    out = []
    for mode, up, tail, far in [("noisy", 0.65, 0.15, 0.04), ("wrong", 0.72, 0.20, 0.12)]:
        for q in ["orientation", "position", "velocity", "gyro-bias", "accel-bias", "clone", "imu", "offset"]:
            u, t, f = up, tail, far
            if q == "imu": u, t = u + 0.04, t + 0.05
            if q == "offset": u, t, f = u + 0.06, t + 0.12, f + 0.08
            k = mode + ":" + q
            md = 700 if q != "offset" else 300
            out += [(k + " upper half", k + ":upper", k, 0.35, u, md), (k + " beyond 95%", k + ":tail", k, 0.0, t, md), (k + " beyond 99.9%", k + ":far", k, 0.0, f, md)]
            if q not in ("imu", "offset"): out += [(k + " large", k + ":large", k, 0.0, 0.03, md)]
        for q, u, t in [("extrinsics", 0.35, 0.08), ("intrinsics", 0.35, 0.08), ("gyro-scale", 0.3, 0.08), ("accel-scale", 0.5, 0.1), ("g-sensitivity", 0.7, 0.25), ("gyro-rotation", 0.4, 0.1), ("accel-rotation", 0.5, 0.1)]:
            k = mode + ":" + q
            w = 0.25 if mode == "wrong" else 0
            out += [(k + " upper half", k + ":upper", k, 0.0, u + w, 80), (k + " beyond 95%", k + ":tail", k, 0.0, t + w / 2, 80)]
    for g in ["int0", "int1", "int2", "rep0", "rep1", "rep2", "rep3", "rep4", "rep5", "fej0", "fej1", "stereo0", "stereo1", "cams1", "cams2", "slam0", "slam1", "imuint0", "imuint1", "model0", "model1"]:
        out.append(("imu beyond 95% with " + g, "group:" + g + ":tail", "group:" + g, 0.0, 0.3, 180))
    for q, lo in [("extrinsics", 0.55), ("intrinsics", 0.7), ("offset", 0.8), ("gyro-scale", 0.6), ("accel-scale", 0.65), ("g-sensitivity", 0.6)]:
        out.append((q + " nearer the truth at the end", "end:" + q + ":smaller", "end:" + q, lo, 1.0, 20))
    for q, hi in [("landmarks", 0.1), ("msckf-points", 0.25), ("tracks", 0.25)]:
        out.append((q + " off, noisy", "noisy:" + q + ":off", "noisy:" + q, 0.0, hi, 2000))
        out.append((q + " off, exact, discrete", "exact-discrete:" + q + ":off", "exact-discrete:" + q, 0.0, 0.02, 300))
    return out


CHECKS["S17"] = dict(
    harness=["s17_truth.cpp", "s17_main.cpp"], sources=sorted(set(SYSTEM)), libs=["cv", "ceres", "boost"], cflags=["-O2"],
    rule="runs of the estimator (and of the program run_simulation) on simulated data, the estimate and its covariance compared with the simulator's truth on the way; distinct = configuration",
    require={"cases": {"quick": 480, "thorough": 6000}, "frames": {"quick": 30000, "thorough": 400000}, "twin": {"quick": 2000, "thorough": 30000}, "program": {"quick": 32, "thorough": 400},
             "exact:position": {"quick": 300, "thorough": 4000}, "exact:landmarks": {"quick": 700, "thorough": 9000}, "exact:msckf-points": {"quick": 500, "thorough": 7000}, "exact:tracks": {"quick": 4000, "thorough": 60000}},
    rates=_truth_rates(),
    technique="online truth monitor: absolute error bounds on data with hardly any noise, distribution of normalized errors on noisy data, bitwise comparison of twin runs",
    note="held on every generated run; normalized errors are judged as a distribution over all runs, with wide bounds")


CHECKS["S18"] = dict(
    harness=["s18_hostile.cpp"], sources=sorted(set(SYSTEM)), libs=["cv", "ceres", "boost"], cflags=["-O2"],
    rule="runs of the estimator on simulated streams with injected faults; distinct = configuration and fault menu",
    require={"cases": {"quick": 800, "thorough": 12000}, **{"frame:" + k: {"quick": q, "thorough": 15 * q} for k, q in
             [("older", 300), ("repeated", 250), ("empty", 150), ("gap", 100), ("one-camera", 40), ("reversed", 30), ("unknown", 150), ("exchanged", 150), ("wild", 150), ("close", 120), ("frozen", 120)]},
             "imu:dropped": 5000, "imu:jittered": 50000, "imu:repeated": 8000, "recovered:frames": 15000, "database": 10000, "fast": 5000},
    rates=[("frames used after the faults", "recovered:uses", "recovered:frames", 0.5, 1, 5000), ("frames without readings", "frame:uncovered", "frame:plain", 0, 0.05, 5000)],
    technique="fault injection with an online state monitor after every call, bitwise comparison around frames that must change nothing",
    note="held on every generated run")

CHECKS["S21"] = dict(
    harness=["s21_tracks.cpp"], sources=["ov_core/src/track/Track%s.cpp" % x for x in ("Base", "KLT", "Descriptor", "Aruco")] + ["ov_core/src/feat/FeatureDatabase.cpp", "ov_core/src/feat/Feature.cpp"] + STATE + CORE_TYPES + PRINT,
    libs=["cv", "boost"], cflags=["-O2"],
    rule="image sequences rendered from a known textured scene along a known motion, with masks, disturbances and moving intruders; distinct = (tracker, camera arrangement, feature count, grid, spacing, threshold, equalization, tags, disturbances)",
    require={"cases": {"quick": 400, "thorough": 6000}, **{"mode:" + k: {"quick": q, "thorough": 15 * q} for k, q in
             [("klt:mono", 40), ("klt:stereo", 40), ("klt:binocular", 30), ("descriptor:mono", 20), ("descriptor:stereo", 15), ("descriptor:binocular", 12), ("aruco", 30)]},
             **{"image:" + k: 15 for k in ("allmasked", "black", "blank", "flash", "noise", "one-camera", "other")},
             "monitored:measurements": 150000, "monitored:masked": 1000, "monitored:renamed": 150, "monitored:independent": 800, "monitored:display": 500, "monitored:detections": 1000, "tags:corners": 1200, "tags:too-large": 100},
    rates=[("KLT steps off the true motion", "flow:klt:off", "flow:klt:steps", 0, 0.02, 50000), ("KLT steps far off", "flow:klt:wild", "flow:klt:steps", 0, 0.003, 50000),
           ("descriptor steps off the true motion", "flow:descriptor:off", "flow:descriptor:steps", 0, 0.0125, 10000), ("descriptor steps far off", "flow:descriptor:wild", "flow:descriptor:steps", 0, 0.0038, 10000),
           ("KLT tracks lost without reason", "survive:klt:lost", "survive:klt:points", 0, 0.015, 30000), ("descriptor tracks lost", "survive:descriptor:lost", "survive:descriptor:points", 0, 0.45, 8000),
           ("KLT tracks on an independently moving object", "intruder:kept:klt", "intruder:others:klt", 0, 0.004, 12000), ("descriptor tracks on an independently moving object", "intruder:kept:descriptor", "intruder:others:descriptor", 0, 0.014, 1500),
           ("KLT stereo pairs off the true point", "stereo:klt:off", "stereo:klt:checked", 0, 0.09, 10000), ("descriptor stereo pairs off the true point", "stereo:descriptor:off", "stereo:descriptor:checked", 0, 0.02, 1200),
           ("left tracks without a right one", "stereo:left-only", "stereo:shared", 0, 0.6, 15000), ("images with few tracks", "supply:poor", "supply:images", 0, 0.02, 500),
           ("tags missed", "tags:missed", "tags:drawn", 0, 0.05, 250), ("tags never drawn", "tags:undrawn", "tags:corners", 0, 0.01, 1200), ("tag corners beside the tag", "tags:far", "tags:corners", 0, 0.004, 1200)],
    technique="online trace monitor on the reported tracks and the feature database after every image, with the rendered scene as reference for where each track has to be",
    note="held on every generated sequence")

# what is wrong in these runs apart from memory is decided by the checks the harnesses belong to
_ALL = sorted(set(SYSTEM + EVAL))
def _san(h, q, t, **kw):
    return dict(harness=[h], sources=_ALL, libs=["cv", "ceres", "boost"], variant="asan", own_binary=True, scale=dict(quick=q, thorough=t), **kw)
def _mem(h, q, t, **kw):
    return dict(harness=[h], sources=_ALL, libs=["cv", "ceres", "boost"], variant="plain", valgrind=True, own_binary=True, scale=dict(quick=q, thorough=t), **kw)
CHECKS["S19"] = dict(
    harness=[], sources=[], only_keys=r"asan|lsan|ubsan|memcheck|crash:signal|exception:.*(out_of_range|length|bad_)",
    phases=[_san("s18_hostile.cpp", 0.1, 0.1), _san("s21_tracks.cpp", 0.25, 0.2), _san("s23_dynamic.cpp", 0.1, 0.1), _san("s22_static.cpp", 0.1, 0.1), _san("s28_loaders.cpp", 0.3, 0.2), _san("s27_eval.cpp", 0.2, 0.2),
            _san("s26_config.cpp", 0.2, 0.2), _san("s01_state.cpp", 0.3, 0.2), _san("s08_updates.cpp", 0.1, 0.1), _san("s06_jacobians.cpp", 0.1, 0.1), _san("s07_nullspace.cpp", 0.1, 0.1), _san("s09_anchor.cpp", 0.1, 0.1),
            _san("s10_db.cpp", 0.2, 0.1, mode="sequential"), _san("s11_triang.cpp", 0.2, 0.1), _san("s12_cameras.cpp", 0.1, 0.1), _san("s13_math.cpp", 0.1, 0.1), _san("s14_cpi.cpp", 0.1, 0.1), _san("s15_spline.cpp", 0.2, 0.1),
            _san("s05_fast.cpp", 0.1, 0.1), _san("s03_propagate.cpp", 0.1, 0.1), _san("s25_zupt.cpp", 0.1, 0.1), _san("s24_factors.cpp", 0.1, 0.1), _san("s16_sim.cpp", 0.1, 0.1),
            _mem("s18_hostile.cpp", 0.01, 0.01)],
    rule="the workloads of the other checks, run under AddressSanitizer, UndefinedBehaviorSanitizer and checked containers and under memcheck; distinct = states the workloads report",
    require={"cases": {"quick": 4000, "thorough": 20000}},
    technique="AddressSanitizer, UndefinedBehaviorSanitizer, checked containers and memcheck over randomized and hostile workloads of every module",
    note="held on every generated run")

CHECKS["S20"] = dict(
    watchdog={"quick": 180, "thorough": 6000},
    harness=["s20_threads.cpp"], sources=sorted(set(SYSTEM)), libs=["cv", "ceres", "boost"] + ["-Wl,--wrap=" + w for w in ("_ZN7ov_init19InertialInitializer10initializeERdRN5Eigen6MatrixIdLin1ELin1ELi0ELin1ELin1EEERSt6vectorISt10shared_ptrIN7ov_type4TypeEESaISA_EES7_INS8_3IMUEEb", "_ZN8ov_msckf10Propagator19propagate_and_cloneESt10shared_ptrINS_5StateEEd")], variant="tsan", parallel=4,
    rule="trackers, propagator, zero-velocity updater, initializer and the whole manager driven from several threads under ThreadSanitizer; distinct = (part, configuration)",
    require={"cases": {"quick": 160, "thorough": 2400}, "queries": 500, "tracker:measurements": 5000, "tracker:parallel": 5, "propagations": 150, "fast": 20, "rests": 50, "init:tries": 50, "init:success": 5, "manager:frames": 200, "boot": 10, "boot:started": 3, "boot:moving": 1},
    technique="ThreadSanitizer over multi-threaded workloads of the real components, conservation of measurements and bitwise comparison with one-threaded runs",
    note="held on the thread interleavings that occurred; fast_state_propagate runs against a state that no update is changing")
