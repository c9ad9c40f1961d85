// The whole estimator driven by the real simulator, with per-frame observation of everything it exposes.
#ifndef VPIPE_H
#define VPIPE_H
#include "core/VioManager.h"
#include "feat/Feature.h"
#include "feat/FeatureDatabase.h"
#include "track/TrackBase.h"
#include "utils/print.h"
#include "vsys.h"
namespace vsys {
struct Vio : ov_msckf::VioManager {
  using ov_msckf::VioManager::VioManager;
  std::shared_ptr<ov_core::FeatureDatabase> db() { return trackFEATS->get_feature_database(); }
  bool started() { return is_initialized_vio; }
};
inline M3 R_of(const Mat &pose) { return jpl2R(V4(pose.block(0, 0, 4, 1))); }

/// options of the filter; small enough to run many
inline Opt filter_options(Rng &r, int ncam = 0, bool small = true, double lens = 1) {
  if (!ncam) ncam = r.p(0.5) ? 1 : (r.p(0.85) ? 2 : 3);
  Opt o = base(r, ncam, r.p(0.5), 0.02, lens);
  auto &s = o.state_options;
  s.do_fej = r.p(0.6);
  s.integration_method = (SO::IntegrationMethod)r.i(0, 2);
  s.do_calib_camera_pose = r.p(0.5);
  s.do_calib_camera_intrinsics = r.p(0.5);
  s.do_calib_camera_timeoffset = r.p(0.5);
  s.do_calib_imu_intrinsics = r.p(0.4);
  s.do_calib_imu_g_sensitivity = s.do_calib_imu_intrinsics && r.p(0.4);
  s.max_clone_size = small ? r.i(4, 12) : r.i(7, 12);
  s.max_slam_features = r.p(0.3) ? 0 : r.i(1, small ? 12 : 20);
  s.max_slam_in_update = r.p(0.5) ? 1000 : r.i(1, 10);
  s.max_msckf_in_update = r.p(0.5) ? 1000 : r.i(3, 30);
  static const Rep reps[6] = {Rep::GLOBAL_3D, Rep::GLOBAL_FULL_INVERSE_DEPTH, Rep::ANCHORED_3D, Rep::ANCHORED_FULL_INVERSE_DEPTH, Rep::ANCHORED_MSCKF_INVERSE_DEPTH, Rep::ANCHORED_INVERSE_DEPTH_SINGLE};
  s.feat_rep_msckf = reps[r.i(0, 5)];
  s.feat_rep_slam = reps[r.i(0, 5)];
  o.dt_slam_delay = r.p(0.5) ? 0 : r.u(0, 1.5);
  o.use_stereo = r.p(0.5);
  o.num_pts = small ? r.i(12, 40) : r.i(30, 50);
  o.sim_freq_imu = r.u(100, 220);
  o.sim_freq_cam = r.u(6, 16);
  o.sim_min_feature_gen_distance = r.u(2, 5);
  o.sim_max_feature_gen_distance = o.sim_min_feature_gen_distance + r.u(2, 6);
  o.sim_distance_threshold = 0.05;
  o.sim_seed_state_init = r.i(0, 100000);
  o.sim_seed_preturb = r.i(0, 100000);
  o.sim_seed_measurements = r.i(0, 100000);
  o.imu_noises.sigma_w = r.logu(1e-4, 2e-3);
  o.imu_noises.sigma_a = r.logu(1e-3, 2e-2);
  o.imu_noises.sigma_wb = r.logu(1e-5, 3e-4);
  o.imu_noises.sigma_ab = r.logu(1e-4, 3e-3);
  auto sq = [](double x) { return x * x; };
  auto &n = o.imu_noises;
  n.sigma_w_2 = sq(n.sigma_w); n.sigma_a_2 = sq(n.sigma_a); n.sigma_wb_2 = sq(n.sigma_wb); n.sigma_ab_2 = sq(n.sigma_ab);
  o.msckf_options.sigma_pix = r.u(0.5, 1.5);
  o.slam_options = o.aruco_options = o.msckf_options;
  o.msckf_options.chi2_multipler = o.slam_options.chi2_multipler = o.aruco_options.chi2_multipler = 1;
  o.featinit_options.refine_features = r.p(0.8);
  return o;
}
/// a lens that does not fold far rays back into the image
inline void unfold(Opt &o, Rng &r) {
  for (auto &c : o.camera_intrinsics) {
    if (is_fish(o, c.first)) continue;
    Vec v = c.second->get_value();
    v(5) = 0.5 * v(4) * v(4) + r.u(0, 0.02);
    c.second->set_value(v);
  }
  copy_init(o);
}
inline std::string name(const Opt &o) {
  auto &s = o.state_options;
  return optname(s) + fmt(" window%d slam%d/%d/%d rep%d/%d stereo%d pts%d imu%.0f cam%.1f", s.max_clone_size, s.max_slam_features, s.max_slam_in_update, s.max_msckf_in_update, (int)s.feat_rep_msckf, (int)s.feat_rep_slam, o.use_stereo, o.num_pts, o.sim_freq_imu, o.sim_freq_cam);
}
struct Frame { double t; std::vector<int> ids; Feats f; };
/// simulator and estimator; frames come out one by one and are fed when the readings have passed them
struct Pipe {
  Opt given, truth;
  std::shared_ptr<ov_msckf::Simulator> sim;
  std::shared_ptr<Vio> vio;
  std::string path;
  std::vector<Frame> wait;
  std::vector<double> fed; // times of frames handed in
  double start = -1;
  Pipe(const Opt &o, const Motion &m, double dur, Rng *init_error = nullptr, bool exact = false) {
    path = write_traj(m, 0, dur, 0.06, scratch_file("traj"));
    given = copy(o);
    given.sim_traj_path = path;
    if (exact) { // data with hardly any noise, an estimator that expects what it expects
      auto &n = given.imu_noises;
      n.sigma_w = n.sigma_a = n.sigma_wb = n.sigma_ab = 1e-8;
      given.msckf_options.sigma_pix = 1e-5;
    }
    sim = std::make_shared<ov_msckf::Simulator>(given);
    unlink(path.c_str());
    truth = sim->get_true_parameters();
    given.imu_noises = o.imu_noises;
    given.msckf_options.sigma_pix = o.msckf_options.sigma_pix;
    copy_init(given);
    vio = std::make_shared<Vio>(given);
    // some readings first, so that they cover the start whatever offset the estimator believes in
    double t0 = sim->current_timestamp(), ti = t0;
    Eigen::Matrix<double, 17, 1> x;
    while (sim->ok() && ti < t0 + 0.2) {
      ov_core::ImuData d;
      if (sim->get_next_imu(d.timestamp, d.wm, d.am)) { ti = d.timestamp; vio->feed_measurement_imu(d); }
      Frame n;
      if (sim->get_next_cam(n.t, n.ids, n.f)) { if (n.t > t0 + 0.13) wait.push_back(n); }
    }
    if (!sim->get_state(t0 + 0.1, x)) return;
    x(0) -= given.calib_camimu_dt; // the filter takes its state to be at its own offset
    if (init_error) {
      Rng &r = *init_error;
      x.segment(1, 4) = qplus(V4(x.segment(1, 4)), r.v3(0.017));
      x.segment(5, 3) += r.v3(0.05);
      x.segment(8, 3) += r.v3(0.01);
      x.segment(11, 3) += r.v3(0.02);
      x.segment(14, 3) += r.v3(0.02);
    }
    vio->initialize_with_gt(x);
    start = x(0);
  }
  SP s() { return vio->get_state(); }
  /// runs until the next frame may be handed in; false at the end
  bool next(Frame &f, const std::function<void(ov_core::ImuData)> &feed) {
    if (wait.size() > 1) { f = wait.front(); wait.erase(wait.begin()); return true; }
    while (sim->ok()) {
      ov_core::ImuData d;
      if (sim->get_next_imu(d.timestamp, d.wm, d.am)) feed(d);
      Frame n;
      if (sim->ok() && sim->get_next_cam(n.t, n.ids, n.f)) {
        wait.push_back(n);
        if (wait.size() > 1) { f = wait.front(); wait.erase(wait.begin()); return true; }
      }
    }
    return false;
  }
  bool next(Frame &f) { return next(f, [&](const ov_core::ImuData &d) { vio->feed_measurement_imu(d); }); }
  void feed(const Frame &f) { fed.push_back(f.t); vio->feed_measurement_simulation(f.t, f.ids, f.f); }
};
/// global position of a landmark
inline V3 landmark(const SP &s, const std::shared_ptr<ov_type::Landmark> &l) {
  V3 p = l->get_xyz(false);
  if (!relrep(l->_feat_representation)) return p;
  auto c = s->_clones_IMU.find(l->_anchor_clone_timestamp);
  if (c == s->_clones_IMU.end()) return V3::Constant(NAN);
  return vj::cam_to_global(p, vj::pose_of(c->second, false), vj::pose_of(s->_calib_IMUtoCAM.at(l->_anchor_cam_id), false));
}
/// what must hold of the estimator after any fed frame, whatever was fed
inline bool sane(Vio &v, const std::string &info) {
  SP s = v.get_state();
  bool ok = true;
  auto vars = variables(s);
  ok &= check_tiling(s, vars, "state", info);
  Mat P = cov_of(s, vars);
  ok &= check(P.allFinite(), "covariance:finite", info);
  if (P.allFinite()) ok &= check_cov(P, "covariance", info, 1e-6);
  for (auto &x : vars) {
    Mat a = x->value();
    ok &= check(a.allFinite() && x->fej().allFinite(), "value:finite", info + str(a));
    if (a.rows() == 4 || a.rows() == 7 || a.rows() == 16)
      if (std::dynamic_pointer_cast<ov_type::IMU>(x) || std::dynamic_pointer_cast<ov_type::PoseJPL>(x) || std::dynamic_pointer_cast<ov_type::JPLQuat>(x))
        ok &= vh::near(a.block(0, 0, 4, 1).norm(), 1, 1e-9, "unit-quaternion", info);
  }
  ok &= check((int)s->_clones_IMU.size() <= s->_options.max_clone_size, "window:size", info + fmt("%zu clones", s->_clones_IMU.size()));
  for (auto &c : s->_clones_IMU) ok &= check(c.first <= s->_timestamp, "window:future", info);
  ok &= check((int)s->_features_SLAM.size() <= s->_options.max_slam_features, "landmarks:number", info + fmt("%zu landmarks", s->_features_SLAM.size()));
  for (auto &l : s->_features_SLAM) {
    ok &= check(l.second->_featid == l.first, "landmarks:id", info);
    if (relrep(l.second->_feat_representation)) {
      ok &= check(s->_clones_IMU.count(l.second->_anchor_clone_timestamp) == 1, "landmarks:anchor", info + fmt("anchor at %.6f is not in the window", l.second->_anchor_clone_timestamp));
      ok &= check(l.second->_anchor_cam_id >= 0 && l.second->_anchor_cam_id < s->_options.num_cameras, "landmarks:anchor-camera", info);
    }
    ok &= check(landmark(s, l.second).allFinite(), "landmarks:finite", info);
  }
  return ok;
}
} // namespace vsys
#endif
