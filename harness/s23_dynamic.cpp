// S23: dynamic initialization.
#include "vj.h"
#include "dynamic/DynamicInitializer.h"
#include "feat/Feature.h"
#include "feat/FeatureDatabase.h"
#include "init/InertialInitializer.h"
#include "init/InertialInitializerOptions.h"
#include "types/IMU.h"
#include "types/Landmark.h"
#include "types/PoseJPL.h"
#include "utils/sensor_data.h"
#include <sys/wait.h>
using namespace vj;
typedef ov_core::ImuData Imu;
typedef std::shared_ptr<std::vector<Imu>> Data;
typedef ov_init::InertialInitializerOptions Opt;

/// smooth motion: sums of sinusoids, everything needed is differentiated in closed form or to rounding
struct Motion {
  V3 c, v0, A1, f1, p1, T0, T1, g1, q1;
  double base;
  Motion(Rng &r, double t0, double rot, double amp) : base(t0) {
    c = r.v3(5); v0 = r.v3(0.8);
    A1 = r.v3(amp); f1 = V3(r.u(2, 6), r.u(2, 6), r.u(2, 6)); p1 = r.v3(3);
    T0 = r.dir() * r.u(0, 3); T1 = r.v3(rot); g1 = V3(r.u(1.5, 4), r.u(1.5, 4), r.u(1.5, 4)); q1 = r.v3(3);
  }
  V3 sn(const V3 &f, const V3 &p, double t) const { return V3(std::sin(f(0) * t + p(0)), std::sin(f(1) * t + p(1)), std::sin(f(2) * t + p(2))); }
  V3 cs(const V3 &f, const V3 &p, double t) const { return V3(std::cos(f(0) * t + p(0)), std::cos(f(1) * t + p(1)), std::cos(f(2) * t + p(2))); }
  M3 R(double t) const { t -= base; return expm(-V3(T1.cwiseProduct(sn(g1, q1, t)))) * expm(T0); }
  V3 p(double t) const { t -= base; return c + v0 * t + A1.cwiseProduct(sn(f1, p1, t)); }
  V3 v(double t) const { t -= base; return v0 + A1.cwiseProduct(f1).cwiseProduct(cs(f1, p1, t)); }
  V3 a(double t) const { t -= base; return -A1.cwiseProduct(f1).cwiseProduct(f1).cwiseProduct(sn(f1, p1, t)); }
  V3 w(double t) const { double h = 1e-4; return -logm(R(t + h) * R(t - h).transpose()) / (2 * h); }
};
static Vec sentinel() {
  Vec v(16);
  v << 0.1, 0.2, 0.3, 0.4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16;
  v.head(4) /= v.head(4).norm();
  return v;
}
struct Out {
  bool ok = false;
  double t = -77;
  Mat P = Mat::Constant(2, 2, 5), x, f;
  std::vector<std::shared_ptr<ov_type::Type>> order;
  std::shared_ptr<ov_type::IMU> imu;
  std::map<double, std::shared_ptr<ov_type::PoseJPL>> clones;
  std::unordered_map<size_t, std::shared_ptr<ov_type::Landmark>> feats;
};
struct Track { size_t cam; double t; V2 uv, un; };
struct Scene {
  Opt p;
  Data imu = std::make_shared<std::vector<Imu>>();
  std::map<size_t, std::vector<Track>> tracks;
  std::map<size_t, V3> pts;
};
static std::shared_ptr<ov_core::FeatureDatabase> database(const Scene &s) {
  auto db = std::make_shared<ov_core::FeatureDatabase>();
  for (auto &f : s.tracks) for (auto &m : f.second) db->update_feature(f.first, m.t, m.cam, m.uv(0), m.uv(1), m.un(0), m.un(1));
  return db;
}
static Out attempt(Scene &s) {
  Out o;
  o.imu = std::make_shared<ov_type::IMU>();
  o.imu->set_local_id(0);
  o.imu->set_value(sentinel());
  o.imu->set_fej(sentinel());
  auto data = std::make_shared<std::vector<Imu>>(*s.imu);
  ov_init::DynamicInitializer d(s.p, database(s), data);
  o.ok = d.initialize(o.t, o.P, o.order, o.imu, o.clones, o.feats);
  o.x = o.imu->value();
  o.f = o.imu->fej();
  return o;
}
static bool crashed(const std::function<void()> &f) {
  fflush(stdout);
  ctx().out.flush();
  pid_t c = fork();
  if (c == 0) { freopen("/dev/null", "w", stderr); alarm(120); f(); _exit(0); }
  int st = 0;
  waitpid(c, &st, 0);
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
static void one(long c, Rng &r) {
  Scene s;
  Opt &p = s.p;
  bool noisy = r.p(0.5);
  p.init_window_time = r.u(0.8, 2.4);
  p.init_dyn_use = true;
  p.init_dyn_mle_max_threads = 1;
  p.init_dyn_mle_max_time = 100;
  p.init_dyn_mle_max_iter = r.p(0.15) ? 0 : r.i(50, 80);
  p.init_dyn_mle_opt_calib = r.p(0.2);
  p.init_dyn_num_pose = r.i(5, 9);
  p.init_dyn_min_deg = r.u(2, 10);
  p.init_dyn_min_rec_cond = 1e-18;
  bool inflate = r.p(0.2);
  p.init_dyn_inflation_orientation = inflate ? r.u(1, 20) : 1;
  p.init_dyn_inflation_velocity = inflate ? r.u(1, 20) : 1;
  p.init_dyn_inflation_bias_gyro = inflate ? r.u(1, 100) : 1;
  p.init_dyn_inflation_bias_accel = inflate ? r.u(1, 100) : 1;
  p.gravity_mag = r.p(0.5) ? 9.81 : r.u(9.6, 9.9);
  p.calib_camimu_dt = r.p(0.5) ? 0 : r.u(-0.05, 0.05);
  p.sigma_pix = noisy ? r.u(0.5, 1.5) : 1;
  p.init_max_features = r.i(20, 40);
  p.num_cameras = r.i(1, 2);
  p.use_stereo = p.num_cameras == 2 && r.p(0.5);
  std::vector<Vec> cams;
  std::vector<bool> fish;
  std::vector<Pose> ext;
  for (int i = 0; i < p.num_cameras; i++) {
    fish.push_back(r.p(0.5));
    cams.push_back(rand_cam(r, fish[i], 0.5));
    std::shared_ptr<ov_core::CamBase> cb;
    if (fish[i]) cb = std::make_shared<ov_core::CamEqui>(752, 480);
    else cb = std::make_shared<ov_core::CamRadtan>(752, 480);
    cb->set_value(cams[i]);
    p.camera_intrinsics[i] = cb;
    Pose e = i == 0 ? Pose{expm(r.dir() * r.u(0, 3)), r.v3(0.1)} : Pose{expm(r.v3(0.05)) * ext[0].R, ext[0].p + r.v3(0.15)};
    Vec x(7);
    x.head(4) = R2jpl(e.R);
    x.tail(3) = e.p;
    p.camera_extrinsics[i] = x;
    ext.push_back(e);
  }
  double newest = r.p(0.2) ? 1.4e9 : r.u(5, 100), T = p.init_window_time;
  double camrate = r.u(12, 30) * std::max(1.0, p.init_dyn_num_pose / (T * 12)), imurate = r.u(200, 500);
  // what is wrong with this one
  // 0 nothing, 1 too few features, 2 no reading before the window, 3 readings stop early, 4 hardly any readings, 5 no rotation, 6 too few poses, 7 empty, 8 readings all after the window, 9 tracks too short, 10 points seen once (may be refused or not)
  int kind = r.p(0.7) ? 0 : r.i(1, 10);
  Motion M(r, newest, kind == 5 ? 0.001 : r.u(0.3, 0.8), r.u(0.2, 0.6));
  // inertial readings
  p.sigma_w = 1.7e-4; p.sigma_a = 2e-3; p.sigma_wb = 2e-5; p.sigma_ab = 3e-3;
  if (r.p(0.5)) { p.sigma_w = r.logu(5e-5, 2e-3); p.sigma_a = r.logu(5e-4, 2e-2); }
  bool rough = noisy && r.p(0.4);
  if (rough) { p.sigma_w = r.logu(5e-3, 2e-2); p.sigma_a = r.logu(2e-2, 1e-1); }
  p.init_dyn_bias_g = r.v3(0.05);
  p.init_dyn_bias_a = r.v3(0.1);
  V3 bg = p.init_dyn_bias_g, ba = p.init_dyn_bias_a;
  if (kind == 5) noisy = false;
  if (noisy) { bg += V3(r.n(0.05), r.n(0.05), r.n(0.05)) * 0.7; ba += V3(r.n(0.1), r.n(0.1), r.n(0.1)) * 0.7; }
  if (noisy && r.p(0.7)) { bg = p.init_dyn_bias_g + V3(r.n(0.05), r.n(0.05), r.n(0.05)); ba = p.init_dyn_bias_a + V3(r.n(0.1), r.n(0.1), r.n(0.1)); }
  double i0 = newest + p.calib_camimu_dt - T - (kind == 2 ? -0.02 : r.u(0.02, 0.3)), i1 = newest + p.calib_camimu_dt + r.u(0.01, 0.2);
  V3 bgt = bg, bat = ba; // at the newest image
  bool at = false;
  for (double t = i0; t <= i1; t += 1 / imurate) {
    Imu m;
    m.timestamp = t;
    if (!at && t >= newest + p.calib_camimu_dt) { at = true; bgt = bg; bat = ba; }
    m.wm = M.w(t) + bg;
    m.am = M.R(t) * (M.a(t) + V3(0, 0, p.gravity_mag)) + ba;
    if (noisy) {
      double q = std::sqrt(imurate);
      m.wm += p.sigma_w * q * V3(r.n(1), r.n(1), r.n(1));
      m.am += p.sigma_a * q * V3(r.n(1), r.n(1), r.n(1));
      bg += p.sigma_wb / q * V3(r.n(1), r.n(1), r.n(1));
      ba += p.sigma_ab / q * V3(r.n(1), r.n(1), r.n(1));
    }
    s.imu->push_back(m);
  }
  if (!at) { bgt = bg; bat = ba; }
  double w0 = newest + p.calib_camimu_dt - T;
  auto cut = [&](double lo, double hi) { std::vector<Imu> o; for (auto &m : *s.imu) if (m.timestamp >= lo && m.timestamp <= hi) o.push_back(m); *s.imu = o; };
  if (kind == 3) cut(-1e18, w0 + T * r.u(0.02, 0.8));
  if (kind == 4) { cut(-1e18, w0 + (r.p(0.5) ? r.u(0.0, 0.02) : T)); while ((int)s.imu->size() > 5 || (s.imu->size() > 1 && r.p(0.3))) s.imu->erase(s.imu->begin() + r.i(1, (int)s.imu->size() - 1)); }
  if (kind == 7) s.imu->clear();
  if (kind == 8) { for (auto &m : *s.imu) if (m.timestamp > w0) m.timestamp += T + 1; }
  // points seen from the middle of the window, tracked over random spans
  int nf = kind == 1 ? r.i(0, (int)(0.75 * p.init_max_features) - 1) : r.i(p.init_max_features, 60);
  std::vector<double> times;
  double step = 1 / camrate;
  for (double t = newest; t >= newest - T - 0.3; t -= step) times.insert(times.begin(), t);
  if (kind == 6) { times = {newest - 0.1, newest - 0.05, newest}; if (r.p(0.3)) times = {newest}; }
  for (int f = 0; f < nf; f++) {
    double tm = newest - T * r.u(0, 1);
    int cam = r.i(0, p.num_cameras - 1);
    double z = r.u(1.5, 7);
    V3 pc(z * r.u(-0.5, 0.5), z * r.u(-0.4, 0.4), z);
    double ti = tm + p.calib_camimu_dt;
    V3 pg = cam_to_global(pc, Pose{M.R(ti), M.p(ti)}, ext[cam]);
    size_t id = 10 + 3 * f;
    double lo = r.p(0.6) ? -1e18 : newest - T * r.u(0.4, 1), hi = r.p(0.7) ? 1e18 : newest - T * r.u(0, 0.3);
    if (kind == 10 && f % 4 == 0) { lo = hi = times[r.i(0, (int)times.size() - 1)]; }
    if (kind == 9) { lo = newest - 0.02; hi = 1e18; }
    std::vector<Track> tr;
    for (double t : times) {
      if (t < lo || t > hi) continue;
      for (int i = 0; i < p.num_cameras; i++) {
        if (i != cam && !p.use_stereo) continue;
        double u = t + p.calib_camimu_dt;
        V3 q = global_to_cam(pg, Pose{M.R(u), M.p(u)}, ext[i]);
        if (q(2) < 0.3 || q.head(2).norm() / q(2) > 1.1) continue;
        V2 un = q.head(2) / q(2), uv = distort(cams[i], fish[i], un);
        if (noisy) { V2 e(r.n(p.sigma_pix), r.n(p.sigma_pix)); Mat J = numjac4([&](const Vec &d) -> Vec { return distort(cams[i], fish[i], un + V2(d)); }, 2, 1e-4); uv += e; un += J.inverse() * e; }
        tr.push_back({(size_t)i, t, uv, un});
      }
    }
    if (tr.size() >= 1) { s.tracks[id] = tr; s.pts[id] = pg; }
  }
  bool has_newest = false;
  for (auto &f : s.tracks) for (auto &m : f.second) has_newest |= m.t == newest;
  std::string ds = fmt("kind %d noisy %d T %.3f cams %d stereo %d iter %d calib %d poses %d features %d dt %.3f camrate %.1f imurate %.1f readings %d g %.3f sw %.1e sa %.1e", kind, noisy, T, p.num_cameras, p.use_stereo, p.init_dyn_mle_max_iter,
                       p.init_dyn_mle_opt_calib, p.init_dyn_num_pose, (int)s.tracks.size(), p.calib_camimu_dt, camrate, imurate, (int)s.imu->size(), p.gravity_mag, p.sigma_w, p.sigma_a);
  if (kind) {
    // refusals, first out of process
    if (!check(!crashed([&] { attempt(s); }), "terminated", ds)) { count("terminated"); return; }
    Out o = attempt(s);
    count(fmt("refusal:%d", kind));
    if (kind == 10) return;
    if (check(!o.ok, fmt("accepted:%d", kind), ds)) check(o.x == sentinel() && o.f == sentinel() && o.order.empty() && o.P.rows() == 2 && o.clones.empty() && o.feats.empty(), "refusal-changed-outputs", ds);
    distinct(fmt("r:%d:%d:%d", kind, p.num_cameras, (int)(4 * T)));
    return;
  }
  Out o = attempt(s), o2 = attempt(s);
  // the solver orders its blocks by address: equal up to rounding, so that only a rare decision may differ
  count(rough ? "attempts:rough" : noisy ? "attempts:noisy" : "attempts:exact");
  count("repeats");
  count("repeats:other-decision", o.ok != o2.ok);
  if (o.ok && o2.ok) {
    check(o.t == o2.t && o.clones.size() == o2.clones.size() && o.feats.size() == o2.feats.size(), "repeat", ds);
    double d = (o.x.bottomRows(12) - o2.x.bottomRows(12)).norm() + (jpl2R(V4(o.x.topRows(4))) - jpl2R(V4(o2.x.topRows(4)))).norm();
    maxv("repeat difference", d);
  }
  count(o.ok ? rough ? "accepted:rough" : noisy ? "accepted:noisy" : "accepted:exact" : rough ? "refused:rough" : noisy ? "refused:noisy" : "refused:exact");
  if (!o.ok || !has_newest) {
    return;
  }
  distinct(fmt("%d:%d:%d:%d:%d:%d:%d:%d", noisy, p.num_cameras, p.use_stereo, p.init_dyn_mle_max_iter > 0, p.init_dyn_mle_opt_calib, p.init_dyn_num_pose, (int)(4 * T), (int)s.tracks.size() / 8));
  // ---- form
  check(o.t == newest, "time", ds);
  check(o.x == o.f, "first-estimate", ds);
  check(o.order.size() == 1 && o.order[0] == std::static_pointer_cast<ov_type::Type>(o.imu), "order", ds);
  if (!check(o.P.rows() == 15 && o.P.cols() == 15, "covariance:size", ds)) return;
  check((o.P - o.P.transpose()).norm() <= 1e-12 * o.P.norm(), "covariance:symmetric", ds);
  Vec sd = o.P.diagonal().cwiseMax(1e-300).cwiseSqrt();
  Eigen::SelfAdjointEigenSolver<Mat> es(sd.cwiseInverse().asDiagonal() * o.P * sd.cwiseInverse().asDiagonal());
  check(o.P.diagonal().minCoeff() > 0 && es.eigenvalues().minCoeff() > 0, "covariance:definite", ds + fmt(" smallest %.3g", es.eigenvalues().minCoeff()));
  near(V3(o.x.block(4, 0, 3, 1)), V3::Zero(), 0, "position", ds);
  if (!check(o.clones.size() >= 4 && o.clones.count(newest), "poses", ds)) return;
  for (auto &q : o.clones) check(q.first >= newest - T - 1e-9 && q.first <= newest, "pose-outside-window", ds);
  if (inflate) {
    // the covariance of the same data, except for the scaled blocks
    const double in[] = {p.init_dyn_inflation_orientation, 1, p.init_dyn_inflation_velocity, p.init_dyn_inflation_bias_gyro, p.init_dyn_inflation_bias_accel};
    p.init_dyn_inflation_orientation = p.init_dyn_inflation_velocity = p.init_dyn_inflation_bias_gyro = p.init_dyn_inflation_bias_accel = 1;
    Out o3 = attempt(s);
    if (o3.ok && (o3.x - o.x).norm() < 1e-9) {
      count("inflated");
      for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) {
        Mat a = o.P.block(3 * i, 3 * j, 3, 3), b = o3.P.block(3 * i, 3 * j, 3, 3) * (i == j ? in[i] : 1);
        Mat sc = sd.segment(3 * i, 3) * sd.segment(3 * j, 3).transpose();
        check((a - b).cwiseQuotient(sc).cwiseAbs().maxCoeff() < 1e-3, "inflation", ds + fmt(" block %d %d off by %.3g", i, j, (a - b).cwiseQuotient(sc).cwiseAbs().maxCoeff()));
      }
    }
  }
  // ---- against the truth, in the frame of the oldest pose: same position, same heading
  double old = o.clones.begin()->first, oi = old + p.calib_camimu_dt;
  Pose E0 = pose_of(o.clones.begin()->second, false);
  M3 D = E0.R.transpose() * M.R(oi); // true global to estimated global
  double yaw = std::atan2(D(1, 0) - D(0, 1), D(0, 0) + D(1, 1));
  M3 Z = M3::Identity();
  Z(0, 0) = Z(1, 1) = std::cos(yaw); Z(0, 1) = -std::sin(yaw); Z(1, 0) = std::sin(yaw);
  auto Rt = [&](double t) { return M3(M.R(t + p.calib_camimu_dt) * Z.transpose()); };
  auto pt = [&](double t) { return V3(Z * (M.p(t + p.calib_camimu_dt) - M.p(oi)) + E0.p); };
  Mat xt = Mat::Zero(16, 1);
  xt.block(0, 0, 4, 1) = R2jpl(Rt(newest));
  xt.block(7, 0, 3, 1) = Z * M.v(newest + p.calib_camimu_dt);
  xt.block(10, 0, 3, 1) = bgt;
  xt.block(13, 0, 3, 1) = bat;
  Vec e = boxminus(std::static_pointer_cast<ov_type::Type>(o.imu), o.x, xt);
  near(E0.p, V3::Zero(), 1e-3, "origin", ds);
  std::vector<int> sel = {0, 1, 2, 6, 7, 8, 9, 10, 11, 12, 13, 14};
  double worst = 0;
  for (int k : sel) worst = std::max(worst, std::abs(e(k)) / sd(k));
  maxv(noisy ? "worst error (sigma), noisy" : "worst error (sigma), exact", worst);
  double fmaxe = 0, pmax = 0, rmax = 0;
  for (auto &q : o.clones) {
    Pose E = pose_of(q.second, false);
    check(q.second->value() == q.second->fej(), "pose-first-estimate", ds);
    pmax = std::max(pmax, (E.p - pt(q.first)).norm());
    rmax = std::max(rmax, logm(E.R * Rt(q.first).transpose()).norm());
  }
  near(logm(pose_of(o.clones.at(newest), false).R * jpl2R(V4(o.x.block(0, 0, 4, 1))).transpose()), V3::Zero(), 1e-9, "newest-pose", ds);
  for (auto &q : o.feats) {
    if (!check(s.pts.count(q.first) && q.second->_featid == q.first && q.second->_feat_representation == Rep::GLOBAL_3D, "feature", ds)) continue;
    V3 tr = Z * (s.pts.at(q.first) - M.p(oi)) + E0.p, got = q.second->get_xyz(false);
    fmaxe = std::max(fmaxe, (got - tr).norm() / tr.norm());
    check(got == q.second->get_xyz(true), "feature-first-estimate", ds);
  }
  check(o.feats.size() >= 8, "features", ds);
  if (!noisy) {
    maxv("exact: pose position", pmax); maxv("exact: pose rotation", rmax); maxv("exact: feature", fmaxe);
    maxv("exact: velocity", V3(e.segment(6, 3)).norm()); maxv("exact: gyro", V3(e.segment(9, 3)).norm()); maxv("exact: accel", V3(e.segment(12, 3)).norm());
    maxv("exact: orientation", V3(e.head(3)).norm());
    if (p.init_dyn_mle_max_iter > 0) {
      count("exact:refined");
      count("exact:refined:off", pmax > 0.15 || rmax > 0.03 || V3(e.segment(6, 3)).norm() > 0.15 || worst > 5);
      maxv("refined: pose position", pmax); maxv("refined: pose rotation", rmax); maxv("refined: velocity", V3(e.segment(6, 3)).norm());  maxv("refined: sigma", worst);
    } else { count("exact:linear"); count("exact:linear:off", pmax > 0.3 || rmax > 0.05 || V3(e.segment(6, 3)).norm() > 0.4); }
    if (getenv("S23DBG")) printf("exact %.6f case %ld %s: R %.3g p %.3g f %.3g v %.3g bg %.3g ba %.3g sig %.3g\n", pmax, c, ds.c_str(), rmax, pmax, fmaxe, V3(e.segment(6, 3)).norm(), V3(e.segment(9, 3)).norm(), V3(e.segment(12, 3)).norm(), worst);
  } else if (p.init_dyn_mle_max_iter > 0) {
    Mat C(12, 12);
    Vec ee(12);
    if (!inflate) {
      for (int i = 0; i < 12; i++) { ee(i) = e(sel[i]); for (int j = 0; j < 12; j++) C(i, j) = o.P(sel[i], sel[j]); }
      double nees = ee.dot(C.ldlt().solve(ee));
      // chi-square with 12 degrees: median 11.3, 0.1% 2.2, 99.9% 32.9
      static const char *names[] = {"orientation", "velocity", "gyro", "accel"};
      std::string pre = rough ? "rough " : "";
      count(pre + "nees");
      count(pre + "nees:low", nees < 5.2); // 5%
      count(pre + "nees:half", nees > 11.3);
      count(pre + "nees:high", nees > 32.9);
      count(pre + "nees:extreme", nees > 300);
      // 3 degrees: median 2.37
      for (int b = 0; b < 4; b++) {
        V3 x = ee.segment(3 * b, 3);
        double q = x.dot(C.block(3 * b, 3 * b, 3, 3).ldlt().solve(x));
        count(pre + "nees:half:" + names[b], q > 2.37);
        count(pre + "nees:high:" + names[b], q > 16.3);
      }
    }
  }
  if (c < 6) sample(ds);
}
int main(int argc, char **argv) {
  init(argc, argv);
  ov_core::Printer::setPrintLevel("SILENT");
  run_cases(ctx().a.thorough() ? 24000 : 2000, one);
  return finish();
}
