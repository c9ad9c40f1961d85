// S26: random configuration files, loaded by the real option structures and compared with what was written.
#include "vh.h"
#include "cam/CamEqui.h"
#include "cam/CamRadtan.h"
#include "core/VioManagerOptions.h"
#include "utils/print.h"
#include <sys/wait.h>
using namespace vh;
typedef ov_msckf::VioManagerOptions O;
using RepT = ov_type::LandmarkRepresentation::Representation;

// one value in a file: what is written and what must come back
struct Opt {
  std::string name;
  char kind; // d double, i int, b bool, s string, p positive double
  bool required;
  std::function<double(const O &)> num;
  std::function<std::string(const O &)> txt;
  int group; // 0 estimator file, 1 simulation part of the estimator file
};
#define D_(n, f) {n, 'd', true, [](const O &o) { return (double)o.f; }, nullptr, 0}
#define P_(n, f) {n, 'p', true, [](const O &o) { return (double)o.f; }, nullptr, 0}
#define I_(n, f) {n, 'i', true, [](const O &o) { return (double)o.f; }, nullptr, 0}
#define B_(n, f) {n, 'b', true, [](const O &o) { return (double)o.f; }, nullptr, 0}
#define DO_(n, f) {n, 'd', false, [](const O &o) { return (double)o.f; }, nullptr, 0}
#define IO_(n, f) {n, 'i', false, [](const O &o) { return (double)o.f; }, nullptr, 0}
#define BO_(n, f) {n, 'b', false, [](const O &o) { return (double)o.f; }, nullptr, 0}
static std::vector<Opt> OPTS = {
    B_("use_fej", state_options.do_fej), B_("calib_cam_extrinsics", state_options.do_calib_camera_pose), B_("calib_cam_intrinsics", state_options.do_calib_camera_intrinsics),
    B_("calib_cam_timeoffset", state_options.do_calib_camera_timeoffset), B_("calib_imu_intrinsics", state_options.do_calib_imu_intrinsics),
    B_("calib_imu_g_sensitivity", state_options.do_calib_imu_g_sensitivity), I_("max_clones", state_options.max_clone_size), I_("max_slam", state_options.max_slam_features),
    I_("max_slam_in_update", state_options.max_slam_in_update), I_("max_msckf_in_update", state_options.max_msckf_in_update), I_("num_aruco", state_options.max_aruco_features),
    D_("dt_slam_delay", dt_slam_delay), B_("try_zupt", try_zupt), D_("zupt_max_velocity", zupt_max_velocity), D_("zupt_noise_multiplier", zupt_noise_multiplier),
    D_("zupt_max_disparity", zupt_max_disparity), B_("zupt_only_at_beginning", zupt_only_at_beginning), B_("record_timing_information", record_timing_information),
    D_("up_msckf_sigma_px", msckf_options.sigma_pix), D_("up_msckf_chi2_multipler", msckf_options.chi2_multipler), D_("up_slam_sigma_px", slam_options.sigma_pix),
    D_("up_slam_chi2_multipler", slam_options.chi2_multipler), D_("up_aruco_sigma_px", aruco_options.sigma_pix), D_("up_aruco_chi2_multipler", aruco_options.chi2_multipler),
    D_("zupt_chi2_multipler", zupt_options.chi2_multipler), D_("gravity_mag", gravity_mag), B_("use_stereo", use_stereo), B_("use_klt", use_klt), B_("use_aruco", use_aruco),
    B_("downsize_aruco", downsize_aruco), B_("downsample_cameras", downsample_cameras), I_("num_opencv_threads", num_opencv_threads), BO_("multi_threading_pubs", use_multi_threading_pubs),
    BO_("multi_threading_subs", use_multi_threading_subs), I_("num_pts", num_pts), I_("fast_threshold", fast_threshold), I_("grid_x", grid_x), I_("grid_y", grid_y),
    I_("min_px_dist", min_px_dist), D_("knn_ratio", knn_ratio), D_("track_frequency", track_frequency),
    BO_("fi_triangulate_1d", featinit_options.triangulate_1d), BO_("fi_refine_features", featinit_options.refine_features), IO_("fi_max_runs", featinit_options.max_runs),
    DO_("fi_init_lamda", featinit_options.init_lamda), DO_("fi_max_lamda", featinit_options.max_lamda), DO_("fi_min_dx", featinit_options.min_dx), DO_("fi_min_dcost", featinit_options.min_dcost),
    DO_("fi_lam_mult", featinit_options.lam_mult), DO_("fi_min_dist", featinit_options.min_dist), DO_("fi_max_dist", featinit_options.max_dist), DO_("fi_max_baseline", featinit_options.max_baseline),
    DO_("fi_max_cond_number", featinit_options.max_cond_number),
    D_("init_window_time", init_options.init_window_time), P_("init_imu_thresh", init_options.init_imu_thresh), P_("init_max_disparity", init_options.init_max_disparity),
    {"init_max_features", 'm', true, [](const O &o) { return (double)o.init_options.init_max_features; }, nullptr, 0},
    B_("init_dyn_use", init_options.init_dyn_use), B_("init_dyn_mle_opt_calib", init_options.init_dyn_mle_opt_calib), I_("init_dyn_mle_max_iter", init_options.init_dyn_mle_max_iter),
    I_("init_dyn_mle_max_threads", init_options.init_dyn_mle_max_threads), D_("init_dyn_mle_max_time", init_options.init_dyn_mle_max_time),
    {"init_dyn_num_pose", 'm', true, [](const O &o) { return (double)o.init_options.init_dyn_num_pose; }, nullptr, 0},
    D_("init_dyn_min_deg", init_options.init_dyn_min_deg), D_("init_dyn_inflation_ori", init_options.init_dyn_inflation_orientation), D_("init_dyn_inflation_vel", init_options.init_dyn_inflation_velocity),
    D_("init_dyn_inflation_bg", init_options.init_dyn_inflation_bias_gyro), D_("init_dyn_inflation_ba", init_options.init_dyn_inflation_bias_accel),
    D_("init_dyn_min_rec_cond", init_options.init_dyn_min_rec_cond),
    {"record_timing_filepath", 's', true, nullptr, [](const O &o) { return o.record_timing_filepath; }, 0},
    {"sim_seed_state_init", 'i', true, [](const O &o) { return (double)o.sim_seed_state_init; }, nullptr, 1},
    {"sim_seed_preturb", 'i', true, [](const O &o) { return (double)o.sim_seed_preturb; }, nullptr, 1},
    {"sim_seed_measurements", 'i', true, [](const O &o) { return (double)o.sim_seed_measurements; }, nullptr, 1},
    {"sim_do_perturbation", 'b', true, [](const O &o) { return (double)o.sim_do_perturbation; }, nullptr, 1},
    {"sim_traj_path", 's', true, nullptr, [](const O &o) { return o.sim_traj_path; }, 1},
    {"sim_distance_threshold", 'd', true, [](const O &o) { return (double)o.sim_distance_threshold; }, nullptr, 1},
    {"sim_freq_cam", 'd', true, [](const O &o) { return (double)o.sim_freq_cam; }, nullptr, 1},
    {"sim_freq_imu", 'd', true, [](const O &o) { return (double)o.sim_freq_imu; }, nullptr, 1},
    {"sim_min_feature_gen_dist", 'd', true, [](const O &o) { return (double)o.sim_min_feature_gen_distance; }, nullptr, 1},
    {"sim_max_feature_gen_dist", 'd', true, [](const O &o) { return (double)o.sim_max_feature_gen_distance; }, nullptr, 1},
};
static const char *REPS[6] = {"GLOBAL_3D", "GLOBAL_FULL_INVERSE_DEPTH", "ANCHORED_3D", "ANCHORED_FULL_INVERSE_DEPTH", "ANCHORED_MSCKF_INVERSE_DEPTH", "ANCHORED_INVERSE_DEPTH_SINGLE"};

static std::string num(Rng &r, double &v) { // written text, and the value the C library reads from it
  std::string s;
  switch (r.i(0, 3)) {
  case 0: s = fmt("%.17g", v); break;
  case 1: s = fmt("%.4e", v); break;
  case 2: s = fmt("%.6f", v); break;
  default: s = fmt("%.1f", v);
  }
  if (s.find_first_of(".e") == std::string::npos) s += ".0";
  v = strtod(s.c_str(), 0);
  return s;
}
static std::string boolean(Rng &r, bool v) {
  static const char *t[] = {"true", "True", "TRUE", "1"}, *f[] = {"false", "False", "FALSE", "0"};
  std::string s = v ? t[r.i(0, 3)] : f[r.i(0, 3)];
  if (r.p(0.15)) s = "\"" + s + "\"";
  return s;
}
static std::string comment(Rng &r) {
  static const char *c[] = {"", "", "", " # a comment", " # true or false", " #100"};
  return c[r.i(0, 5)];
}
static int terminated(const std::function<void()> &f) { // 0 returned, 1 failure status, 2 other status, 3 signal
  ctx().out.flush(); fflush(0);
  pid_t p = fork();
  if (p == 0) {
    if (freopen("/dev/null", "w", stdout) && freopen("/dev/null", "w", stderr)) {}
    try { f(); } catch (...) { _exit(88); }
    _exit(77);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFEXITED(st)) return WEXITSTATUS(st) == 77 ? 0 : WEXITSTATUS(st) == EXIT_FAILURE ? 1 : 2;
  return 3;
}
static std::string rows(Rng &r, const Mat &m, const std::string &ind) {
  std::string s;
  for (int i = 0; i < m.rows(); i++) {
    s += ind + "- [";
    for (int j = 0; j < m.cols(); j++) s += fmt(r.p(0.5) ? "%s%.17f" : "%s %.17f", j ? "," : "", m(i, j));
    s += "]\n";
  }
  return s;
}
struct Entry { std::string key, text; };
static void emit(std::ofstream &f, Rng &r, std::vector<Entry> &e, const std::string &ind) {
  std::shuffle(e.begin(), e.end(), r.g);
  for (auto &x : e) {
    if (r.p(0.1)) f << ind << "# " << x.key << ": 123\n";
    f << ind << x.key << ":" << x.text << "\n";
    if (r.p(0.05)) f << "\n";
  }
}

static void files(Rng &r, long c) {
  std::string dir = ctx().a.scratch + "/";
  enum Kind { FULL, MISSING, BADTEXT, INVALID, OPTIONAL } kind = (Kind)std::vector<int>{0, 0, 0, 1, 1, 2, 3, 4}[c / 8 % 8];
  int ncam = r.i(1, 4);
  std::vector<Entry> est, imu;
  std::map<std::string, double> want;
  std::map<std::string, std::string> wants;
  std::set<std::string> gone; // options that must keep their default
  O def;
  int nreq_missing = 0;
  std::string what;
  // which options are left out or spoiled
  std::set<size_t> skip, bad;
  if (kind == MISSING) for (int q = 0, n = r.i(1, 3); q < n; q++) skip.insert(r.i(0, OPTS.size() - 1));
  if (kind == BADTEXT) bad.insert(r.i(0, OPTS.size() - 1));
  for (size_t k = 0; k < OPTS.size(); k++) {
    const Opt &o = OPTS[k];
    if (skip.count(k) || (kind == OPTIONAL && !o.required && r.p(0.5))) {
      gone.insert(o.name);
      if (o.required) { nreq_missing++; what += "no " + o.name + " "; }
      continue;
    }
    if (bad.count(k) && o.kind != 's') {
      est.push_back({o.name, o.kind == 'b' ? " maybe" : " abc"});
      gone.insert(o.name); what += "bad " + o.name + " ";
      if (o.required) nreq_missing++;
      else if (o.kind == 'b') nreq_missing = -1000; // an invalid optional boolean may be reported either way
      continue;
    }
    std::string t;
    double v = 0;
    if (o.kind == 'b') { v = r.p(0.5); t = boolean(r, v); }
    else if (o.kind == 'i') { v = r.i(-50, 5000); t = fmt("%d", (int)v); }
    else if (o.kind == 'm') { v = r.i(15, 500); t = fmt("%d", (int)v); }
    else if (o.kind == 'd') { v = r.p(0.3) ? r.i(-20, 300) : r.n(1) * r.logu(1e-6, 1e6); if (r.p(0.2) && v == std::floor(v)) t = fmt("%d", (int)v); else t = num(r, v); }
    else if (o.kind == 'p') { v = r.u(0.2, 50); t = num(r, v); }
    else { wants[o.name] = fmt("/tmp/%d/some file_%d.txt", r.i(0, 9), r.i(0, 99)); est.push_back({o.name, " \"" + wants[o.name] + "\"" + comment(r)}); continue; }
    want[o.name] = v;
    est.push_back({o.name, " " + t + comment(r)});
  }
  // choices with names
  static const char *INTEG[3] = {"discrete", "rk4", "analytical"}, *HIST[3] = {"NONE", "HISTOGRAM", "CLAHE"}, *MODEL[3] = {"kalibr", "rpng", "calibrated"};
  int integ = r.i(0, 2), hist = r.i(0, 2), rep[3] = {r.i(0, 5), r.i(0, 5), r.i(0, 5)}, model = r.i(0, 2);
  bool calib_imu = (want.count("calib_imu_intrinsics") && want["calib_imu_intrinsics"]) || (want.count("calib_imu_g_sensitivity") && want["calib_imu_g_sensitivity"]);
  bool clash = model == 2 && calib_imu;
  if (clash && kind != INVALID) { model = 0; clash = false; }
  int inv = kind == INVALID ? (clash ? -1 : r.i(0, 6)) : -1;
  est.push_back({"integration", std::string(" \"") + (inv == 0 ? "euler" : INTEG[integ]) + "\"" + comment(r)});
  est.push_back({"histogram_method", std::string(" \"") + (inv == 1 ? "NICE" : HIST[hist]) + "\"" + comment(r)});
  const char *rn[3] = {"feat_rep_msckf", "feat_rep_slam", "feat_rep_aruco"};
  int badrep = r.i(0, 2);
  for (int q = 0; q < 3; q++) est.push_back({rn[q], std::string(" \"") + (inv == 2 && q == badrep ? "GLOBAL_4D" : REPS[rep[q]]) + "\""});
  est.push_back({"max_cameras", fmt(" %d", ncam)});
  V3 bg = r.v3(), ba = r.v3();
  est.push_back({"init_dyn_bias_g", fmt(" [ %.17f, %.17f, %.17f ]", bg(0), bg(1), bg(2))});
  est.push_back({"init_dyn_bias_a", fmt(" [ %.17f, %.17f, %.17f ]", ba(0), ba(1), ba(2))});
  est.push_back({"relative_config_imu", inv == 4 ? " \"imu_missing.yaml\"" : " \"imu.yaml\""});
  if (inv != 5) est.push_back({"relative_config_imucam", " \"imucam.yaml\""});
  for (const char *k : {"max_clones_extra", "use_", "num_pts2", "unused"}) if (r.p(0.3)) est.push_back({k, " 77"});
  bool down = want.count("downsample_cameras") && want["downsample_cameras"];
  // masks, one image per camera of exactly the camera's size
  std::vector<int> W(ncam), H(ncam);
  for (int i = 0; i < ncam; i++) { W[i] = r.i(20, 80); H[i] = r.i(20, 80); }
  int nocam = kind == MISSING && r.p(0.3) && ncam > 1 ? r.i(0, ncam - 1) : -1;
  bool mask = nocam < 0 && (r.p(0.3) || inv == 6);
  est.push_back({"use_mask", " " + boolean(r, mask)});
  int badmask = inv == 6 ? r.i(0, ncam - 1) : -1;
  if (mask)
    for (int i = 0; i < ncam; i++) {
      int w = down ? W[i] / 2 : W[i], h = down ? H[i] / 2 : H[i];
      if (i == badmask) { (r.p(0.5) ? w : h) += 1; }
      cv::imwrite(dir + fmt("m%d.png", i), cv::Mat(h, w, CV_8UC1, cv::Scalar(40 * (i + 1))));
      est.push_back({fmt("mask%d", i), fmt(" \"m%d.png\"", i)});
    }
  { std::ofstream f(dir + "estimator.yaml", std::ios::trunc); f << "%YAML:1.0\n\n"; emit(f, r, est, ""); }
  // inertial sensor
  double ns[4];
  const char *nn[4] = {"gyroscope_noise_density", "gyroscope_random_walk", "accelerometer_noise_density", "accelerometer_random_walk"};
  int nskip = kind == MISSING && r.p(0.3) ? r.i(0, 3) : -1;
  for (int q = 0; q < 4; q++) {
    ns[q] = r.logu(1e-6, 1e-1);
    std::string t = num(r, ns[q]);
    if (q == nskip) { nreq_missing++; what += fmt("no %s ", nn[q]); continue; }
    imu.push_back({nn[q], " " + t + comment(r)});
  }
  auto tri = [&](bool lower) { M3 m = M3::Identity() + 0.1 * r.mat(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (lower ? j > i : j < i) m(i, j) = 0; return m; };
  M3 Tw = tri(model != 1), Ta = tri(model != 1), Rg = r.rot(), Ra = r.rot(), Tg = 0.1 * r.mat(3, 3);
  imu.push_back({"model", std::string(" \"") + (inv == 3 ? "vectornav" : MODEL[model]) + "\"" + comment(r)});
  imu.push_back({"Tw", "\n" + rows(r, Tw, "    ")});
  imu.push_back({"Ta", "\n" + rows(r, Ta, "    ")});
  imu.push_back({"R_IMUtoGYRO", "\n" + rows(r, Rg, "    ")});
  imu.push_back({"R_IMUtoACC", "\n" + rows(r, Ra, "    ")});
  imu.push_back({"Tg", "\n" + rows(r, Tg, "    ")});
  imu.push_back({"update_rate", " 200.0"});
  { std::ofstream f(dir + "imu.yaml", std::ios::trunc); f << "%YAML:1.0\n\nimu0:\n"; emit(f, r, imu, "  "); }
  // cameras
  std::vector<Vec> K(ncam), X(ncam);
  std::vector<bool> fish(ncam);
  double dt = r.n(0.05);
  bool dtwritten = r.p(0.7);
  {
    std::vector<std::string> blocks;
    for (int i = 0; i < ncam; i++) {
      std::vector<Entry> cam;
      Vec k(8); k << r.u(100, 900), r.u(100, 900), r.u(100, 900), r.u(100, 900), r.n(0.1), r.n(0.1), r.n(0.1), r.n(0.1);
      fish[i] = r.p(0.5);
      M3 R = r.rot(); V3 p = r.v3();
      Eigen::Matrix4d T = Eigen::Matrix4d::Identity();
      bool inverse = r.p(0.5); // T_imu_cam: camera to IMU, T_cam_imu: IMU to camera
      T.block(0, 0, 3, 3) = inverse ? M3(R.transpose()) : R; // R is camera to IMU
      T.block(0, 3, 3, 1) = inverse ? V3(-R.transpose() * p) : p;
      cam.push_back({inverse ? "T_cam_imu" : "T_imu_cam", "\n" + rows(r, T, "    ")});
      cam.push_back({"intrinsics", fmt(" [%.17f, %.17f, %.17f, %.17f]", k(0), k(1), k(2), k(3)) + comment(r)});
      cam.push_back({"distortion_coeffs", fmt(" [%.17f,%.17f,%.17f,%.17f]", k(4), k(5), k(6), k(7)) + comment(r)});
      cam.push_back({"distortion_model", fish[i] ? " equidistant" : " radtan"});
      cam.push_back({"camera_model", " pinhole"});
      cam.push_back({"resolution", fmt(" [%d, %d]", W[i], H[i])});
      if (dtwritten || i > 0) cam.push_back({"timeshift_cam_imu", fmt(" %.17f", i == 0 ? dt : 9.0 + i)});
      if (down) k.head(4) /= 2;
      K[i] = k;
      X[i] = Vec(7); X[i] << R2jpl(M3(R.transpose())), -R.transpose() * p;
      std::ofstream f(dir + "cam.tmp", std::ios::trunc);
      f << (i == nocam ? fmt("camera%d:\n", i) : fmt("cam%d:\n", i));
      emit(f, r, cam, "  ");
      f.close();
      std::ifstream g(dir + "cam.tmp"); std::stringstream ss; ss << g.rdbuf();
      blocks.push_back(ss.str());
    }
    if (nocam >= 0) { nreq_missing++; what += fmt("no cam%d ", nocam); }
    std::shuffle(blocks.begin(), blocks.end(), r.g);
    std::ofstream f(dir + "imucam.yaml", std::ios::trunc);
    f << "%YAML:1.0\n\n";
    for (auto &b : blocks) f << b;
  }
  O o;
  bool sim = r.p(0.7);
  auto load = [&](O &q) -> bool {
    auto p = std::make_shared<ov_core::YamlParser>(dir + "estimator.yaml");
    q.print_and_load(p);
    if (sim) q.print_and_load_simulation(p);
    return p->successful();
  };
  count(fmt("kind:%d", (int)kind));
  std::string d = fmt("kind %d cams %d ", (int)kind, ncam) + what;
  distinct(fmt("cfg:%d:%d:%d:%d:%d:%d:%d:%s", (int)kind, ncam, integ, hist, model, down, mask, what.c_str()));
  bool outright = inv == 0 || inv == 1 || inv == 2 || inv == 3 || inv == 4 || inv == 5 || inv == 6 || clash;
  if (outright) {
    O q;
    int rc = terminated([&] { load(q); });
    check(rc == 1, fmt("invalid-accepted:%d", clash ? 99 : inv), fmt("outcome %d ", rc) + d);
    count(fmt("invalid:%d", clash ? 99 : inv));
    return;
  }
  // an option the library itself refuses (too small after falling back to its default never happens: defaults are valid)
  bool ok = load(o);
  int need = nreq_missing;
  if (!sim && need > 0) { // options of the simulation part are not read, so their absence is not noticed
    int simmiss = 0;
    for (size_t k = 0; k < OPTS.size(); k++) if (OPTS[k].group == 1 && OPTS[k].required && gone.count(OPTS[k].name)) simmiss++;
    need -= simmiss;
  }
  if (need >= 0) check(ok == (need == 0), ok ? "missing-not-reported" : "complete-reported-missing", d);
  for (auto &x : OPTS) {
    if (x.group == 1 && !sim) continue;
    if (x.txt) {
      std::string w = gone.count(x.name) ? x.txt(def) : wants[x.name];
      check(x.txt(o) == w, (gone.count(x.name) ? "default:" : "value:") + x.name, x.txt(o) + " instead of " + w + "; " + d);
    } else {
      double w = gone.count(x.name) ? x.num(def) : want[x.name];
      near(x.num(o), w, 1e-15 * std::abs(w), (gone.count(x.name) ? "default:" : "value:") + x.name, d);
    }
    count("options");
  }
  auto has = [&](const char *n) { return !gone.count(n); };
  // derived and shared values
  near(o.msckf_options.sigma_pix_sq, std::pow(has("up_msckf_sigma_px") ? want["up_msckf_sigma_px"] : def.msckf_options.sigma_pix, 2), 1e-12 * o.msckf_options.sigma_pix_sq, "derived:msckf-sq", d);
  near(o.slam_options.sigma_pix_sq, std::pow(has("up_slam_sigma_px") ? want["up_slam_sigma_px"] : def.slam_options.sigma_pix, 2), 1e-12 * o.slam_options.sigma_pix_sq, "derived:slam-sq", d);
  near(o.aruco_options.sigma_pix_sq, std::pow(has("up_aruco_sigma_px") ? want["up_aruco_sigma_px"] : def.aruco_options.sigma_pix, 2), 1e-12 * o.aruco_options.sigma_pix_sq, "derived:aruco-sq", d);
  if (has("up_slam_sigma_px")) near(o.init_options.sigma_pix, want["up_slam_sigma_px"], 0, "init:sigma_pix", d);
  if (has("gravity_mag")) near(o.init_options.gravity_mag, want["gravity_mag"], 0, "init:gravity", d);
  if (has("use_stereo")) check(o.init_options.use_stereo == (want["use_stereo"] != 0), "init:use_stereo", d);
  if (has("downsample_cameras")) check(o.init_options.downsample_cameras == down, "init:downsample", d);
  check(o.state_options.num_cameras == ncam && o.init_options.num_cameras == ncam, "num-cameras", d);
  typedef ov_msckf::StateOptions SO;
  check(o.state_options.integration_method == (integ == 0 ? SO::DISCRETE : integ == 1 ? SO::RK4 : SO::ANALYTICAL), "integration", d);
  check(o.state_options.imu_model == (model == 1 ? SO::RPNG : SO::KALIBR), "imu-model", d);
  typedef ov_core::TrackBase TB;
  check(o.histogram_method == (hist == 0 ? TB::NONE : hist == 1 ? TB::HISTOGRAM : TB::CLAHE), "histogram", d);
  static const RepT RV[6] = {RepT::GLOBAL_3D, RepT::GLOBAL_FULL_INVERSE_DEPTH, RepT::ANCHORED_3D, RepT::ANCHORED_FULL_INVERSE_DEPTH, RepT::ANCHORED_MSCKF_INVERSE_DEPTH, RepT::ANCHORED_INVERSE_DEPTH_SINGLE};
  check(o.state_options.feat_rep_msckf == RV[rep[0]] && o.state_options.feat_rep_slam == RV[rep[1]] && o.state_options.feat_rep_aruco == RV[rep[2]], "representation", d);
  near(o.init_options.init_dyn_bias_g, bg, 1e-15, "init:bias_g", d);
  near(o.init_options.init_dyn_bias_a, ba, 1e-15, "init:bias_a", d);
  double got[2][4] = {{o.imu_noises.sigma_w, o.imu_noises.sigma_wb, o.imu_noises.sigma_a, o.imu_noises.sigma_ab}, {o.init_options.sigma_w, o.init_options.sigma_wb, o.init_options.sigma_a, o.init_options.sigma_ab}};
  double dn[4] = {def.imu_noises.sigma_w, def.imu_noises.sigma_wb, def.imu_noises.sigma_a, def.imu_noises.sigma_ab};
  for (int q = 0; q < 4; q++) for (int w = 0; w < 2; w++) near(got[w][q], q == nskip ? dn[q] : ns[q], 1e-15 * ns[q], fmt("noise:%s:%d", nn[q], w), d);
  // inertial intrinsics: inverses stored by columns, rotations inverted
  M3 Dw = Tw.inverse(), Da = Ta.inverse();
  Vec vw(6), va(6), vg(9);
  if (model != 1) { vw << Dw(0, 0), Dw(1, 0), Dw(2, 0), Dw(1, 1), Dw(2, 1), Dw(2, 2); va << Da(0, 0), Da(1, 0), Da(2, 0), Da(1, 1), Da(2, 1), Da(2, 2); }
  else { vw << Dw(0, 0), Dw(0, 1), Dw(1, 1), Dw(0, 2), Dw(1, 2), Dw(2, 2); va << Da(0, 0), Da(0, 1), Da(1, 1), Da(0, 2), Da(1, 2), Da(2, 2); }
  vg << Tg.col(0), Tg.col(1), Tg.col(2);
  near(o.vec_dw, vw, 1e-10, "imu:dw", d);
  near(o.vec_da, va, 1e-10, "imu:da", d);
  near(o.vec_tg, vg, 1e-12, "imu:tg", d);
  near(jpl2R(o.q_GYROtoIMU), M3(Rg.transpose()), 1e-9, "imu:gyro-rotation", d);
  near(jpl2R(o.q_ACCtoIMU), M3(Ra.transpose()), 1e-9, "imu:acc-rotation", d);
  // cameras, for the filter and for the initializer
  for (int w = 0; w < 2; w++) {
    auto &ci = w ? o.init_options.camera_intrinsics : o.camera_intrinsics;
    auto &ce = w ? o.init_options.camera_extrinsics : o.camera_extrinsics;
    if (!check((int)ci.size() == ncam && (int)ce.size() == ncam, "camera:count", d)) continue;
    near(w ? o.init_options.calib_camimu_dt : o.calib_camimu_dt, dtwritten && nocam != 0 ? dt : 0.0, 1e-15, "camera:time-offset", d);
    for (int i = 0; i < ncam; i++) {
      std::string e = fmt("camera %d copy %d ", i, w) + d;
      if (i == nocam) continue; // defaults, reported as missing
      check(ci.at(i)->w() == (down ? W[i] / 2 : W[i]) && ci.at(i)->h() == (down ? H[i] / 2 : H[i]), "camera:resolution", fmt("%d x %d ", ci.at(i)->w(), ci.at(i)->h()) + e);
      near(ci.at(i)->get_value(), K[i], 1e-12 * 1000, "camera:intrinsics", e);
      check((std::dynamic_pointer_cast<ov_core::CamEqui>(ci.at(i)) != nullptr) == (bool)fish[i], "camera:model", e);
      near(jpl2R(Eigen::Vector4d(ce.at(i).head(4))), jpl2R(Eigen::Vector4d(X[i].head(4))), 1e-9, "camera:rotation", e);
      near(ce.at(i).tail(3), X[i].tail(3), 1e-9, "camera:position", e);
      count("cameras");
    }
  }
  check(o.use_mask == mask, "use_mask", d);
  if (mask && nocam < 0) {
    if (check((int)o.masks.size() == ncam, "mask:count", d))
      for (int i = 0; i < ncam; i++) check(o.masks.at(i).cols == (down ? W[i] / 2 : W[i]) && o.masks.at(i).rows == (down ? H[i] / 2 : H[i]) && o.masks.at(i).at<uchar>(2, 2) == 40 * (i + 1), "mask:content", fmt("mask %d ", i) + d);
    count("masks");
  }
}

static void parser(Rng &r) { // the parser on its own: transforms in both directions, types, missing files
  std::string dir = ctx().a.scratch + "/", file = dir + "p.yaml";
  M3 R = r.rot(), A = r.mat(3, 3);
  V3 p = r.v3();
  Eigen::Matrix4d T = Eigen::Matrix4d::Identity(), Ti = T;
  T.block(0, 0, 3, 3) = R; T.block(0, 3, 3, 1) = p;
  Ti.block(0, 0, 3, 3) = R.transpose(); Ti.block(0, 3, 3, 1) = -R.transpose() * p;
  bool inv = r.p(0.5);
  std::vector<double> dv; std::vector<int> iv;
  for (int k = 0, n = r.i(1, 12); k < n; k++) dv.push_back(r.n(10));
  for (int k = 0, n = r.i(1, 12); k < n; k++) iv.push_back(r.i(-1000, 1000));
  {
    std::ofstream f(dir + "q.yaml", std::ios::trunc);
    f << "%YAML:1.0\nother:\n  T_imu_cam: 3\n  value: 9\nsensor:\n  " << (inv ? "T_cam_imu" : "T_imu_cam") << ":\n" << rows(r, inv ? Mat(Ti) : Mat(T), "    ") << "  A:\n" << rows(r, A, "    ") << "  value: 17\n  dv: [";
    for (size_t k = 0; k < dv.size(); k++) f << (k ? ", " : "") << fmt("%.17f", dv[k]);
    f << "]\n  iv: [";
    for (size_t k = 0; k < iv.size(); k++) f << (k ? ", " : "") << iv[k];
    f << "]\n";
    std::ofstream g(file, std::ios::trunc);
    g << "%YAML:1.0\nrel: \"q.yaml\"\nvalue: 4\nT_imu_cam: 5\n";
  }
  ov_core::YamlParser y(file);
  Eigen::Matrix4d G1, G2; M3 B; int v = 0, w = 0, z = -3; std::vector<double> dg; std::vector<int> ig;
  y.parse_external("rel", "sensor", "T_imu_cam", G1);
  y.parse_external("rel", "sensor", "T_cam_imu", G2);
  y.parse_external("rel", "sensor", "A", B);
  y.parse_external("rel", "sensor", "value", v);
  y.parse_external("rel", "sensor", "dv", dg);
  y.parse_external("rel", "sensor", "iv", ig);
  y.parse_config("value", w);
  near(G1, T, 1e-12, "parser:T_imu_cam"); near(G2, Ti, 1e-12, "parser:T_cam_imu"); near(B, A, 1e-12, "parser:matrix3");
  check(v == 17 && w == 4, "parser:scope", fmt("%d %d", v, w));
  bool eq = dg.size() == dv.size() && ig == iv;
  for (size_t k = 0; k < dv.size() && k < dg.size(); k++) eq = eq && std::abs(dg[k] - dv[k]) < 1e-14;
  check(eq, "parser:vectors");
  check(y.successful(), "parser:successful");
  y.parse_config("absent", z, false);
  y.parse_external("rel", "sensor", "absent", z, false);
  check(y.successful() && z == -3, "parser:optional-missing");
  bool which = r.p(0.5);
  if (which) y.parse_config("absent", z); else y.parse_external("rel", r.p(0.5) ? "sensor" : "nosensor", "absent", z);
  check(!y.successful() && z == -3, "parser:required-missing");
  y.parse_config("value", w);
  check(!y.successful(), "parser:failure-forgotten");
  if (r.p(0.1)) {
    check(terminated([&] { ov_core::YamlParser n(dir + "nope.yaml"); }) == 1, "parser:missing-file");
    ov_core::YamlParser n(dir + "nope.yaml", false);
    int k = 5;
    n.parse_config("value", k);
    check(k == 5, "parser:optional-file");
    count("missing-file");
  }
  count("parser");
  distinct(fmt("parser:%d:%d:%d:%d", inv, which, (int)dv.size(), (int)iv.size()));
}

int main(int argc, char **argv) {
  init(argc, argv);
  ov_core::Printer::setPrintLevel("SILENT");
  run_cases(ctx().a.thorough() ? 40000 : 1600, [](long c, Rng &r) {
    files(r, c);
    parser(r);
  });
  return finish();
}
