// S16: the simulator's streams judged against its own true poses, calibration and map, its statistics and its seeds.
#include "vsys.h"
#include "sim/SimulatorInit.h"
#include "utils/print.h"
using namespace vsys;

/// the simulator of the estimator and that of the initializer, seen through the estimator's options
struct Simulator {
  Opt spec;
  std::shared_ptr<ov_msckf::Simulator> a;
  std::shared_ptr<ov_init::SimulatorInit> b;
  ov_init::InertialInitializerOptions ib;
  Simulator(Opt &o, bool init) : spec(o) {
    if (!init) { a = std::make_shared<ov_msckf::Simulator>(o); return; }
    copy_init(o);
    auto &n = ib = o.init_options;
    n.init_max_features = o.num_pts;
    n.sigma_w = o.imu_noises.sigma_w; n.sigma_wb = o.imu_noises.sigma_wb; n.sigma_a = o.imu_noises.sigma_a; n.sigma_ab = o.imu_noises.sigma_ab;
    n.sigma_pix = o.msckf_options.sigma_pix;
    n.sim_seed_state_init = o.sim_seed_state_init; n.sim_seed_preturb = o.sim_seed_preturb; n.sim_seed_measurements = o.sim_seed_measurements;
    n.sim_do_perturbation = o.sim_do_perturbation;
    n.sim_traj_path = o.sim_traj_path; n.sim_distance_threshold = o.sim_distance_threshold;
    n.sim_freq_cam = o.sim_freq_cam; n.sim_freq_imu = o.sim_freq_imu;
    n.sim_min_feature_gen_distance = o.sim_min_feature_gen_distance; n.sim_max_feature_gen_distance = o.sim_max_feature_gen_distance;
    b = std::make_shared<ov_init::SimulatorInit>(n);
    back(n, o);
  }
  static void back(const ov_init::InertialInitializerOptions &n, Opt &o) {
    o.calib_camimu_dt = n.calib_camimu_dt;
    o.camera_intrinsics.clear();
    for (auto &c : n.camera_intrinsics) o.camera_intrinsics.insert(c);
    for (auto &c : n.camera_extrinsics) o.camera_extrinsics.at(c.first) = c.second;
  }
  bool ok() { return a ? a->ok() : b->ok(); }
  double current_timestamp() { return a ? a->current_timestamp() : b->current_timestamp(); }
  bool get_state(double t, Eigen::Matrix<double, 17, 1> &x) { return a ? a->get_state(t, x) : b->get_state(t, x); }
  bool get_next_imu(double &t, V3 &w, V3 &f) { return a ? a->get_next_imu(t, w, f) : b->get_next_imu(t, w, f); }
  bool get_next_cam(double &t, std::vector<int> &c, Feats &f) { return a ? a->get_next_cam(t, c, f) : b->get_next_cam(t, c, f); }
  std::unordered_map<size_t, V3> get_map() { return a ? a->get_map() : b->get_map(); }
  Opt get_true_parameters() { if (a) return a->get_true_parameters(); Opt o = vsys::copy(spec); back(b->get_true_parameters(), o); return o; }
};

struct ImuRec { double t; V3 w, a; };
struct CamRec { double t; std::vector<int> ids; Feats f; size_t after; };
struct Log {
  double start;
  std::vector<ImuRec> imu;
  std::vector<CamRec> cam;
  std::vector<int> order; // 0 inertial, 1 camera
};
static Log drain(Simulator &sim) {
  Log l;
  l.start = sim.current_timestamp();
  while (sim.ok()) {
    ImuRec m;
    CamRec c;
    bool any = false;
    if (sim.get_next_imu(m.t, m.w, m.a)) { l.imu.push_back(m); l.order.push_back(0); any = true; }
    if (sim.ok() && sim.get_next_cam(c.t, c.ids, c.f)) { c.after = l.imu.size(); l.cam.push_back(c); l.order.push_back(1); any = true; }
    if (!any && sim.ok()) { fail("stuck", fmt("neither a reading nor a frame after %zu readings and %zu frames", l.imu.size(), l.cam.size())); break; }
    if (l.imu.size() > 100000) { fail("endless", "the simulation does not end"); break; }
  }
  return l;
}
static bool same_imu(const Log &a, const Log &b) {
  if (a.imu.size() != b.imu.size()) return false;
  for (size_t k = 0; k < a.imu.size(); k++) if (a.imu[k].t != b.imu[k].t || a.imu[k].w != b.imu[k].w || a.imu[k].a != b.imu[k].a) return false;
  return true;
}
static bool same_cam(const Log &a, const Log &b) {
  if (a.cam.size() != b.cam.size()) return false;
  for (size_t k = 0; k < a.cam.size(); k++) {
    if (a.cam[k].t != b.cam[k].t || a.cam[k].ids != b.cam[k].ids || a.cam[k].f.size() != b.cam[k].f.size()) return false;
    for (size_t c = 0; c < a.cam[k].f.size(); c++) {
      auto &x = a.cam[k].f[c];
      auto &y = b.cam[k].f[c];
      if (x.size() != y.size()) return false;
      for (size_t j = 0; j < x.size(); j++) if (x[j].first != y[j].first || x[j].second != y[j].second) return false;
    }
  }
  return true;
}
static bool same_map(Simulator &a, Simulator &b) {
  auto x = a.get_map(), y = b.get_map();
  if (x.size() != y.size()) return false;
  for (auto &f : x) { auto it = y.find(f.first); if (it == y.end() || it->second != f.second) return false; }
  return true;
}
static Vec flat(const Opt &o) {
  std::vector<double> v{o.calib_camimu_dt};
  for (int i = 0; i < o.state_options.num_cameras; i++) {
    Mat c = o.camera_intrinsics.at(i)->get_value();
    for (int k = 0; k < 8; k++) v.push_back(c(k));
    for (int k = 0; k < 7; k++) v.push_back(o.camera_extrinsics.at(i)(k));
  }
  for (int k = 0; k < 6; k++) v.push_back(o.vec_dw(k));
  for (int k = 0; k < 6; k++) v.push_back(o.vec_da(k));
  for (int k = 0; k < 9; k++) v.push_back(o.vec_tg(k));
  for (int k = 0; k < 4; k++) v.push_back(o.q_ACCtoIMU(k));
  for (int k = 0; k < 4; k++) v.push_back(o.q_GYROtoIMU(k));
  return Eigen::Map<Vec>(v.data(), v.size());
}
/// standard normal samples: shares of signs and tails, and of equal signs of neighbours
struct Stat {
  std::string k;
  double last = 0;
  bool has = false;
  Stat(const std::string &k) : k(k) {}
  void operator()(double z) {
    count(k);
    if (z > 0) count(k + ":positive");
    if (std::abs(z) > 0.6744898) count(k + ":outer");
    if (std::abs(z) > 2) count(k + ":tail");
    if (!(std::abs(z) < 6)) fail(k + ":range", fmt("a noise sample of %.3f standard deviations", z));
    if (has) { count(k + ":pairs"); if ((z > 0) == (last > 0)) count(k + ":pairs-equal"); }
    last = z;
    has = true;
  }
};

static void one(long, Rng &r) {
  int ncam = r.i(1, 3);
  bool init = r.p(0.35);
  Opt o = base(r, ncam, !init && r.p(0.7));
  o.use_stereo = r.p(0.5);
  o.num_pts = r.i(10, 60);
  double fi = r.p(0.3) ? 200 : r.u(80, 500), fc = r.p(0.3) ? 20 : r.u(4, 30);
  if (r.p(0.15)) fi = fc * r.i(1, 6);
  o.sim_freq_imu = fi;
  o.sim_freq_cam = fc;
  o.sim_min_feature_gen_distance = r.u(0.8, 5);
  o.sim_max_feature_gen_distance = o.sim_min_feature_gen_distance + r.u(1, 8);
  o.sim_distance_threshold = r.p(0.3) ? 0.0 : r.u(0, 2);
  o.sim_seed_state_init = r.i(0, 1000);
  o.sim_seed_preturb = r.i(0, 1000);
  o.sim_seed_measurements = r.i(0, 1000);
  o.state_options.do_calib_imu_intrinsics = r.p(0.6);
  o.state_options.do_calib_imu_g_sensitivity = r.p(0.5);
  o.sim_do_perturbation = r.p(0.5);
  int noise = r.i(0, 3); // none, walk only, all, large
  double sw = noise >= 2 ? r.logu(1e-4, 1e-1) : 0, sa = noise >= 2 ? r.logu(1e-3, 1) : 0;
  double swb = noise >= 1 ? r.logu(1e-5, 1e-2) : 0, sab = noise >= 1 ? r.logu(1e-4, 1e-1) : 0;
  bool pixnoise = r.p(0.5);
  o.imu_noises.sigma_w = sw; o.imu_noises.sigma_a = sa; o.imu_noises.sigma_wb = swb; o.imu_noises.sigma_ab = sab;
  o.msckf_options.sigma_pix = pixnoise ? r.logu(0.1, 3) : 0;
  double t0 = r.p(0.5) ? 0 : r.u(0, 1e5), dur = r.u(4, 9), sp = r.u(0.05, 0.1);
  Motion m(r, r.u(0.5, 3), r.u(0.1, 0.9), r.u(0, 1));
  double path_length = 0;
  for (double t = 0.2; t < dur - 1; t += 0.05) path_length += (m.p(t + 0.05) - m.p(t)).norm();
  o.sim_distance_threshold = std::min(o.sim_distance_threshold, 0.4 * path_length);
  std::string path = write_traj(m, t0, dur, sp, scratch_file("traj"));
  o.sim_traj_path = path;
  Opt given = copy(o);
  Simulator sim(given, init);
  Log l = drain(sim);
  Opt truth = sim.get_true_parameters();
  auto map = sim.get_map();
  std::string info = fmt("%s, imu %.3f Hz, camera %.3f Hz, cameras %d, stereo %d, points %d, noise %d, model %d, start %.3f, ", init ? "initializer" : "estimator", fi, fc, ncam, o.use_stereo, o.num_pts, noise, (int)o.state_options.imu_model, t0);
  distinct(fmt("%d %d %d %d %d %d %d %d %d", init, ncam, o.use_stereo, noise, pixnoise, (int)o.state_options.imu_model, o.sim_do_perturbation, fi < 200, fc < 10));
  // the true parameters are the ones given, before any perturbation
  near(flat(truth), flat(o), 0, "true-parameters", info);
  // where it starts and ends
  {
    double len = 0, prev = 0, eps = 0.15 * o.sim_distance_threshold + 0.1;
    // the spline starts two control points in
    V3 q = m.p(l.start - t0 < 2 * sp ? l.start - t0 : 2 * sp);
    for (double t = 2 * sp; t < l.start - t0 + 1e-9; t += 1 / fc) { prev = len; len += (m.p(t) - q).norm(); q = m.p(t); }
    check(l.start >= t0 + 2 * sp - 1e-6, "start:early", info + fmt("starts at %.6f, the trajectory at %.6f", l.start, t0));
    check(len > o.sim_distance_threshold - eps, "start:still", info + fmt("moved %.4f of %.4f when started", len, o.sim_distance_threshold));
    check(prev <= o.sim_distance_threshold + eps, "start:late", info + fmt("had moved %.4f of %.4f a frame before the start", prev, o.sim_distance_threshold));
    double end = t0 + dur;
    if (!l.imu.empty() && l.imu.back().t > 0) check(l.imu.back().t > end - 5 * sp - 2 / fc - 2 / fi && l.imu.back().t < end + 1e-6, "end", info + fmt("last reading %.4f, trajectory ends %.4f", l.imu.back().t, end));
  }
  // rates and order, on the inertial clock
  for (size_t k = 0; k < l.imu.size(); k++) vh::near(l.imu[k].t, l.start + (k + 1) / fi, 1e-7, "imu-rate", info);
  for (size_t k = 0; k < l.cam.size(); k++) vh::near(l.cam[k].t + o.calib_camimu_dt, l.start + (k + 1) / fc, 1e-7, "camera-rate", info);
  count("readings", l.imu.size());
  count("frames", l.cam.size());
  for (size_t k = 0; k < l.cam.size(); k++) {
    double t = l.cam[k].t + o.calib_camimu_dt;
    size_t n = l.cam[k].after;
    check((n == 0 || l.imu[n - 1].t <= t + 1e-9) && (n >= l.imu.size() || l.imu[n].t >= t - 1e-9), "order", info + fmt("frame %zu at %.9f emitted after %zu readings", k, t, n));
  }
  // inertial readings
  Cal c = cal_of(o);
  M3 Tw = c.Dw.inverse(), Ta = c.Da.inverse();
  V3 g(0, 0, o.gravity_mag);
  Stat ngw("gyro-noise"), nga("accel-noise"), wgw("gyro-walk"), wga("accel-walk");
  double h = 2e-4, dti = 1 / fi;
  V3 bg0 = V3::Zero(), ba0 = V3::Zero();
  bool hb = false;
  size_t stepk = std::max<size_t>(1, l.imu.size() / 400);
  for (size_t k = 0; k + 2 < l.imu.size(); k++) {
    double t = l.imu[k].t;
    Eigen::Matrix<double, 17, 1> x, xm, xp;
    if (!check(sim.get_state(t, x), "state:missing", info + fmt("no true state at reading %zu", k))) break;
    V3 bg = x.segment(11, 3), ba = x.segment(14, 3);
    if (hb && noise >= 1) {
      for (int i = 0; i < 3; i++) { wgw((bg - bg0)(i) / (swb * std::sqrt(dti))); wga((ba - ba0)(i) / (sab * std::sqrt(dti))); }
    } else if (noise == 0 && init && o.sim_do_perturbation) {
      if (hb) { near(bg, bg0, 0, "bias-constant", info); near(ba, ba0, 0, "bias-constant", info); }
    } else if (noise == 0) {
      near(bg, V3::Zero(), 0, "bias-zero", info);
      near(ba, V3::Zero(), 0, "bias-zero", info);
    }
    std::swap(bg0, bg); std::swap(ba0, ba); hb = true;
    if (!init) { bg = bg0; ba = ba0; } // the initializer's simulator moves its biases after the reading
    if (k % stepk || k < 2) continue;
    if (!sim.get_state(t - h, xm) || !sim.get_state(t + h, xp)) { check(t - h <= l.start + dti || t + h > l.imu.back().t, "state:missing", info + "no true state near a reading"); continue; }
    M3 R = jpl2R(V4(x.segment(1, 4)));
    V3 w = -logm(jpl2R(V4(xp.segment(1, 4))) * jpl2R(V4(xm.segment(1, 4))).transpose()) / (2 * h);
    V3 v = (xp.segment(5, 3) - xm.segment(5, 3)) / (2 * h), a = (xp.segment(8, 3) - xm.segment(8, 3)) / (2 * h);
    near(V3(x.segment(8, 3)), v, 2e-6 * (1 + t * 1e-4) + 2e-6, "velocity", info);
    V3 f = R * (a + g);
    V3 am = Ta * c.Ra.transpose() * f + ba, wm = Tw * c.Rw.transpose() * w + c.Tg * f + bg;
    count("modelled");
    if (noise < 2) {
      near(l.imu[k].w, wm, 1e-4, "gyro", info);
      near(l.imu[k].a, am, 2e-3, "accel", info);
      maxv("gyro error", (l.imu[k].w - wm).norm());
      maxv("accel error", (l.imu[k].a - am).norm());
    } else {
      for (int i = 0; i < 3; i++) { ngw((l.imu[k].w - wm)(i) / (sw / std::sqrt(dti))); if (sa / std::sqrt(dti) > 0.3) nga((l.imu[k].a - am)(i) / (sa / std::sqrt(dti))); }
    }
    // the true pose follows the given one (a spline smooths its control points)
    near(V3(x.segment(5, 3)), m.p(t - t0), 0.03, "trajectory:position", info);
    near(logm(R * m.R(t - t0).transpose()), V3::Zero(), 0.02, "trajectory:orientation", info);
  }
  // frames
  double sp_ = o.msckf_options.sigma_pix;
  Stat np("pixel-noise");
  for (size_t k = 0; k < l.cam.size(); k++) {
    Eigen::Matrix<double, 17, 1> x;
    double t = l.cam[k].t + o.calib_camimu_dt;
    if (!sim.get_state(t, x)) { check(t > l.imu.back().t - 2 * dti || k == 0, "state:missing", info + fmt("no true state at frame %zu", k)); continue; }
    vj::Pose I{jpl2R(V4(x.segment(1, 4))), x.segment(5, 3)};
    auto &fr = l.cam[k];
    if (!check((int)fr.ids.size() == ncam && (int)fr.f.size() == ncam, "frame:cameras", info)) continue;
    std::vector<std::set<size_t>> seen(ncam);
    for (int i = 0; i < ncam; i++) {
      check(fr.ids[i] == i, "frame:camera-id", info);
      vj::Pose C = extr(o, i);
      double W = o.camera_intrinsics.at(i)->w(), H = o.camera_intrinsics.at(i)->h();
      check((int)fr.f[i].size() <= o.num_pts, "frame:too-many", info);
      size_t off = o.use_stereo ? 0 : i * map.size();
      for (auto &f : fr.f[i]) {
        size_t id = f.first - off;
        if (!check(f.first >= off && map.count(id), "frame:unknown-point", info + fmt("camera %d reports %zu, map of %zu", i, f.first, map.size()))) continue;
        check(seen[i].insert(id).second, "frame:twice", info);
        V3 pC = vj::global_to_cam(map.at(id), I, C);
        check(pC(2) > 0.1 - 1e-6 && pC(2) < o.sim_max_feature_gen_distance + 1e-6, "frame:depth", info + fmt("depth %.4f", pC(2)));
        vj::V2 uv = pixel(o, i, pC), got(f.second(0), f.second(1));
        double tol = 5e-3 + 2e-4 * std::pow(std::hypot(pC(0), pC(1)) / pC(2), 5); // single precision, amplified far from the axis
        check(uv(0) > -2 * tol && uv(1) > -2 * tol && uv(0) < W + 2 * tol && uv(1) < H + 2 * tol, "frame:outside", info + fmt("true pixel %.2f %.2f", uv(0), uv(1)));
        if (!pixnoise) near(got, uv, tol, "frame:pixel", info);
        else if (sp_ > 0.1 && tol < 0.02) { np((got(0) - uv(0)) / sp_); np((got(1) - uv(1)) / sp_); }
        count("pixels");
      }
      // nothing visible is left out while there is room
      int vis = 0;
      for (auto &f : map) {
        V3 pC = vj::global_to_cam(f.second, I, C);
        if (pC(2) < 0.1 + 1e-6 || pC(2) > o.sim_max_feature_gen_distance - 1e-6) continue;
        vj::V2 uv = pixel(o, i, pC);
        double tol = 0.01 + 4e-4 * std::pow(std::hypot(pC(0), pC(1)) / pC(2), 5);
        if (uv(0) > tol && uv(1) > tol && uv(0) < W - tol && uv(1) < H - tol) vis++;
      }
      check((int)fr.f[i].size() >= std::min(vis, o.num_pts), "frame:left-out", info + fmt("%d points visible, %zu reported of %d", vis, fr.f[i].size(), o.num_pts));
      count("camera-frames");
      if ((int)fr.f[i].size() == o.num_pts) count("camera-frames:full");
      if ((int)fr.f[i].size() >= 0.7 * o.num_pts) count("camera-frames:rich");
    }
  }
  // at the poses the map is made for there are enough points
  for (double t = t0 + 2 * std::max(sp, 0.05); t < t0 + dur; t += 0.25) {
    Eigen::Matrix<double, 17, 1> x;
    if (!sim.get_state(t, x)) continue;
    vj::Pose I{jpl2R(V4(x.segment(1, 4))), x.segment(5, 3)};
    for (int i = 0; i < ncam; i++) {
      vj::Pose C = extr(o, i);
      int vis = 0;
      for (auto &f : map) {
        V3 pC = vj::global_to_cam(f.second, I, C);
        if (pC(2) < 0.1 || pC(2) > o.sim_max_feature_gen_distance + 0.05) continue;
        vj::V2 uv = pixel(o, i, pC);
        if (uv(0) > -2 && uv(1) > -2 && uv(0) < o.camera_intrinsics.at(i)->w() + 2 && uv(1) < o.camera_intrinsics.at(i)->h() + 2) vis++;
      }
      count("map-poses");
      if (vis >= o.num_pts) count("map-poses:enough");
    }
  }
  // perturbation of what the estimator starts with
  if (init) {
    near(flat(given), flat(o), 0, "unperturbed", info);
    Stat z("start-bias");
    if (o.sim_do_perturbation && noise == 0) { for (int k = 0; k < 3; k++) { z(bg0(k) / 0.01); z(ba0(k) / 0.08); } }
    count("initializer");
  } else if (!o.sim_do_perturbation) near(flat(given), flat(o), 0, "unperturbed", info);
  else {
    Stat z("perturbation");
    z((given.calib_camimu_dt - o.calib_camimu_dt) / 0.01);
    for (int i = 0; i < ncam; i++) {
      Mat a = given.camera_intrinsics.at(i)->get_value(), b = o.camera_intrinsics.at(i)->get_value();
      for (int k = 0; k < 8; k++) z((a(k) - b(k)) / (k < 4 ? 1.0 : 0.005));
      vj::Pose p = extr(given, i), q = extr(o, i);
      V3 e = logm(p.R * q.R.transpose());
      for (int k = 0; k < 3; k++) { z(e(k) / 0.001); z((p.p - q.p)(k) / 0.01); }
    }
    bool in = o.state_options.do_calib_imu_intrinsics;
    auto v = [&](const Vec &a, const Vec &b, bool on, double s) {
      for (int k = 0; k < a.size(); k++) { if (on) z((a(k) - b(k)) / s); else check(std::abs(a(k) - b(k)) < 1e-12, "perturbed-uncalibrated", info); }
    };
    v(given.vec_dw, o.vec_dw, in, 0.004);
    v(given.vec_da, o.vec_da, in, 0.004);
    v(given.vec_tg, o.vec_tg, o.state_options.do_calib_imu_g_sensitivity, 0.004);
    bool kal = o.state_options.imu_model == SO::KALIBR;
    V3 eg = logm(jpl2R(V4(given.q_GYROtoIMU)) * jpl2R(V4(o.q_GYROtoIMU)).transpose()), ea = logm(jpl2R(V4(given.q_ACCtoIMU)) * jpl2R(V4(o.q_ACCtoIMU)).transpose());
    v(eg, V3::Zero(), in && kal, 0.002);
    v(ea, V3::Zero(), in && !kal, 0.002);
    count("perturbed");
  }
  // the same seeds again, and one seed at a time
  auto again = [&](const std::function<void(Opt &)> &f, Opt &gave, std::shared_ptr<Simulator> &s) {
    Opt n = copy(o);
    f(n);
    s = std::make_shared<Simulator>(n, init);
    gave = copy(n);
    return drain(*s);
  };
  Opt gv;
  std::shared_ptr<Simulator> s2;
  int which = r.i(0, 3);
  Log l2;
  switch (which) {
  case 0:
    l2 = again([&](Opt &) {}, gv, s2);
    check(same_imu(l, l2) && same_cam(l, l2), "seed:repeat", info + "the streams of two simulations with equal options differ");
    check(same_map(sim, *s2), "seed:repeat-map", info);
    near(flat(gv), flat(given), 0, "seed:repeat-perturbation", info);
    break;
  case 1:
    l2 = again([&](Opt &n) { n.sim_seed_measurements += r.i(1, 100); }, gv, s2);
    check(same_map(sim, *s2), "seed:measurement-map", info + "the measurement seed changed the map");
    near(flat(gv), flat(given), 0, "seed:measurement-perturbation", info);
    if (noise >= 2) check(!same_imu(l, l2), "seed:measurement-imu", info);
    if (pixnoise) check(!same_cam(l, l2), "seed:measurement-camera", info);
    else check(same_cam(l, l2), "seed:measurement-camera", info);
    break;
  case 2:
    l2 = again([&](Opt &n) { n.sim_seed_state_init += r.i(1, 100); }, gv, s2);
    check(same_imu(l, l2), "seed:map-imu", info + "the map seed changed the inertial readings");
    check(!same_map(sim, *s2), "seed:map-map", info);
    near(flat(gv), flat(given), 0, "seed:map-perturbation", info);
    break;
  default:
    l2 = again([&](Opt &n) { n.sim_seed_preturb += r.i(1, 100); if (r.p(0.3)) n.sim_do_perturbation = !n.sim_do_perturbation; }, gv, s2);
    check((init || same_imu(l, l2)) && same_cam(l, l2) && same_map(sim, *s2), "seed:perturbation-streams", info + "the perturbation seed changed the world");
    if (init) check(same_imu(l, l2) == !(o.sim_do_perturbation || gv.sim_do_perturbation), "seed:perturbation-bias", info);
    else if (o.sim_do_perturbation) check((flat(gv) - flat(given)).cwiseAbs().maxCoeff() > 0, "seed:perturbation", info);
  }
  near(flat(s2->get_true_parameters()), flat(o), 0, "true-parameters", info);
  count(fmt("seed:%d", which));
  unlink(path.c_str());
  if (ctx().nsamples < 3) sample(info + fmt("%zu readings, %zu frames, map %zu", l.imu.size(), l.cam.size(), map.size()));
}
int main(int argc, char **argv) {
  init(argc, argv);
  ov_core::Printer::setPrintLevel(getenv("VP_PRINT") ? "ALL" : "SILENT");
  run_cases(ctx().a.thorough() ? 20000 : 1200, one);
  return finish();
}
