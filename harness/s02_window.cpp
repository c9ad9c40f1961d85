// S02: what the estimator's window, map, covariance and feature store look like after every frame of random runs.
#include "vpipe.h"
using namespace vsys;

static void one(long, Rng &r) {
  Opt o = filter_options(r);
  if (r.p(0.15)) { // estimators that start at rest may refuse to move on
    o.try_zupt = true;
    o.zupt_max_velocity = r.u(0.1, 0.6);
    o.zupt_max_disparity = r.u(0.2, 1.5);
    o.zupt_noise_multiplier = r.u(1, 10);
    o.zupt_only_at_beginning = r.p(0.3);
    o.zupt_options.chi2_multipler = r.p(0.5) ? 1 : 0;
  }
  o.sim_do_perturbation = r.p(0.4) && o.state_options.do_calib_camera_pose;
  Motion m(r, r.u(0.3, 2), r.u(0.1, 0.7), r.u(0, 0.8));
  double dur = r.u(5, 8);
  Pipe p(o, m, dur);
  if (p.start < 0) { fail("start", name(o)); return; }
  std::string info = name(o) + (o.try_zupt ? " zupt" : "") + (o.sim_do_perturbation ? " perturbed" : "");
  bool split = o.state_options.num_cameras > 1 && r.p(0.35); // one camera at a time
  double pdrop = r.p(0.5) ? 0 : r.u(0, 0.4), pempty = r.p(0.6) ? 0 : r.u(0, 0.3), pthin = r.p(0.6) ? 0 : r.u(0, 0.5);
  int seq = o.try_zupt + 2 * split;
  distinct(info);
  Frame f;
  std::vector<double> done; // frames the filter has moved to
  long n = 0;
  bool was_full = false;
  std::map<size_t, double> seen;
  double dt_b = 0; // offset the newest clone was made with
  while (p.next(f)) {
    if (f.t <= p.s()->_timestamp + 0.001) continue;
    if (r.p(pdrop)) { count("dropped"); continue; }
    bool empty = r.p(pempty), thin = r.p(pthin);
    std::vector<Frame> parts;
    if (split) for (size_t c = 0; c < f.ids.size(); c++) { Frame g; g.t = f.t; g.ids = {f.ids[c]}; g.f = {f.f[c]}; parts.push_back(g); }
    else parts.push_back(f);
    if (split && r.p(0.3)) std::swap(parts.front(), parts.back());
    for (auto &g : parts) {
      if (empty) for (auto &c : g.f) c.clear();
      if (thin) for (auto &c : g.f) { std::vector<std::pair<size_t, Eigen::VectorXf>> k; for (auto &x : c) if (r.p(0.3)) k.push_back(x); c = k; }
      SP s = p.s();
      double before = s->_timestamp;
      std::map<double, Mat> old;
      for (auto &c : s->_clones_IMU) old[c.first] = c.second->value();
      std::map<size_t, int> landmarks;
      for (auto &l : s->_features_SLAM) landmarks[l.first] = l.second->_unique_camera_id;
      std::set<size_t> ids;
      for (auto &c : g.f) for (auto &x : c) seen[x.first + 4 * o.state_options.max_aruco_features + 1] = g.t;
      for (auto &c : g.f) for (auto &x : c) ids.insert(x.first + 4 * o.state_options.max_aruco_features + 1); // the simulated tracker keeps the tags' identities free
      if (before != g.t) dt_b = s->_calib_dt_CAMtoIMU->value()(0);
      p.feed(g);
      n++;
      count("frames");
      std::string at = info + fmt(" frame %ld t %.4f ", n, g.t);
      if (!sane(*p.vio, at)) return;
      bool moved = s->_timestamp != before;
      check(s->_timestamp == g.t, "time", at + fmt("filter at %.6f", s->_timestamp));
      check(s->_timestamp >= before, "time:back", at);
      bool zupt = o.try_zupt && moved && !s->_clones_IMU.count(g.t);
      if (zupt) count("zupt");
      else if (moved) done.push_back(g.t);
      // clones: the last processed frames, all of them
      std::set<double> want(done.end() - std::min<size_t>(done.size(), s->_options.max_clone_size), done.end()), have;
      for (auto &c : s->_clones_IMU) have.insert(c.first);
      if (!o.try_zupt) {
        bool same = want == have;
        if (!same && (int)have.size() == (int)want.size() - 1) { want.erase(want.begin()); same = want == have; } // a frame that only starts the window
        check(want == have, "window:times", at + fmt("%zu clones of %zu frames, newest %.6f", have.size(), done.size(), have.empty() ? 0 : *have.rbegin()));
      } else for (double t : have) check(std::find(done.begin(), done.end(), t) != done.end(), "window:times", at);
      if ((int)have.size() == s->_options.max_clone_size) { count("full"); was_full = true; }
      // newest clone is the current pose
      if (!zupt && s->_clones_IMU.count(g.t)) {
        auto c = s->_clones_IMU.at(g.t);
        Mat a = c->value(), b = s->_imu->value().block(0, 0, 7, 1);
        V3 dq = logm(R_of(a) * R_of(b).transpose()), dp = a.block(4, 0, 3, 1) - b.block(4, 0, 3, 1);
        if (!o.state_options.do_calib_camera_timeoffset) {
          check(dq.norm() < 1e-7 && dp.norm() < 1e-7, "newest-clone", at + fmt("differs by %.3g rad %.3g m", dq.norm(), dp.norm()));
          Mat F = ov_msckf::StateHelper::get_marginal_covariance(s, {c}), G = ov_msckf::StateHelper::get_marginal_covariance(s, {s->_imu->pose()});
          near(F, G, 1e-7 * (1 + F.cwiseAbs().maxCoeff()), "newest-clone:covariance", at);
          count("newest");
        } else {
          double d = std::abs(s->_calib_dt_CAMtoIMU->value()(0) - dt_b);
          double v = s->_imu->vel().norm();
          check(dp.norm() < 0.01 + 3 * d * (v + 0.5) && dq.norm() < 0.01 + 6 * d, "newest-clone:offset", at + fmt("differs by %.3g rad %.3g m, offset moved %.3g", dq.norm(), dp.norm(), d));
          count("newest-offset");
        }
      }
      // a landmark its camera no longer sees leaves the map; the one just made was not used otherwise
      if (!zupt && have.size() > 5)
        for (auto &l : landmarks)
          if (std::find(g.ids.begin(), g.ids.end(), l.second) != g.ids.end() && !ids.count(l.first)) {
            // the depth-only parameterization needs two measurements, so one left over may wait within the window
            if (o.state_options.feat_rep_slam == Rep::ANCHORED_INVERSE_DEPTH_SINGLE && seen.count(l.first) && seen[l.first] >= done[std::max<long>(0, (long)done.size() - s->_options.max_clone_size - 2)]) { count("lost:waiting"); continue; }
            check(!s->_features_SLAM.count(l.first), "landmarks:lost", at + fmt("landmark %zu is not seen any more", l.first));
            count("lost");
          } else if (ids.count(l.first)) { count("seen"); if (!s->_features_SLAM.count(l.first)) count("seen:dropped"); }
      for (auto &l : s->_features_SLAM) if (!landmarks.count(l.first)) {
        check(ids.count(l.first) == 1, "landmarks:new", at + fmt("landmark %zu was made without being seen", l.first));
        V3 x = landmark(s, l.second), d = x - s->_imu->pos();
        count("made");
        for (auto &y : p.vio->get_good_features_MSCKF()) if ((y - x).norm() < 0.02 * d.norm()) { count("made:twice"); break; }
      }
      // stored measurements
      auto db = p.vio->db()->get_internal_data();
      double oldest = have.empty() ? -1 : *have.begin();
      long meas = 0;
      bool slid = !old.empty() && !have.empty() && old.begin()->first < oldest && (int)have.size() == s->_options.max_clone_size;
      for (auto &e : db)
        for (auto &c : e.second->timestamps) {
          check(c.second.size() == e.second->uvs[c.first].size() && c.second.size() == e.second->uvs_norm[c.first].size(), "store:sizes", at);
          for (size_t k = 0; k < c.second.size(); k++) {
            meas++;
            if (slid && !zupt) {
              count("checks");
              // (a frame spent on a zero velocity update has no clone, so its measurements go with the next clone that leaves)
              if (o.try_zupt ? c.second[k] <= old.begin()->first : c.second[k] < oldest) fail("store:old", at + fmt("feature %zu measured at %.6f, window from %.6f", e.first, c.second[k], oldest));
            }
            if (c.second[k] > g.t) fail("store:future", at);
            if (k && !(c.second[k] > c.second[k - 1])) fail("store:order", at + fmt("feature %zu camera %zu", e.first, c.first));
          }
        }
      maxv("stored measurements", meas);
      for (auto &e : db) check(!e.second->to_delete, "store:used", at + "a used feature stays stored");
      // what is reported
      for (auto &x : p.vio->get_good_features_MSCKF()) check(x.allFinite(), "reported:msckf", at);
      auto slam = p.vio->get_features_SLAM();
      check(slam.size() == s->_features_SLAM.size(), "reported:slam-number", at);
      std::vector<V3> mine;
      for (auto &l : s->_features_SLAM) mine.push_back(landmark(s, l.second));
      for (auto &x : slam) {
        double best = 1e9;
        for (auto &y : mine) best = std::min(best, (x - y).norm());
        check(best < 1e-6 * (1 + x.norm()), "reported:slam", at + fmt("off by %.3g", best));
      }
      check(p.vio->get_features_ARUCO().empty(), "reported:aruco", at);
      double ta;
      std::unordered_map<size_t, Eigen::Vector3d> pos, uvd;
      p.vio->get_active_tracks(ta, pos, uvd);
      check(ta <= g.t, "reported:active-time", at);
      for (auto &x : pos) check(x.second.allFinite(), "reported:active", at);
      if (ta == g.t && g.ids[0] == 0)
        for (auto &l : s->_features_SLAM) if (pos.count(l.first)) { V3 q = landmark(s, l.second); check((pos.at(l.first) - q).norm() < 1e-6 * (1 + q.norm()), "reported:active-landmark", at + fmt("off by %.3g", (pos.at(l.first) - q).norm())); count("active-landmarks"); }
      for (auto &x : uvd) {
        check(x.second.allFinite() && x.second(2) >= 0.1 && x.second(0) >= 0 && x.second(0) < 752 && x.second(1) >= 0 && x.second(1) < 480, "reported:active-pixel", at + str(x.second));
        check(pos.count(x.first) == 1, "reported:active-match", at);
      }
      if (!uvd.empty() && ta == g.t && g.ids[0] == 0) {
        // a reported track is where the pose of its frame sees it
        vj::Pose I = vj::pose_of(s->_clones_IMU.count(ta) ? s->_clones_IMU.at(ta) : s->_imu->pose(), false), C = vj::pose_of(s->_calib_IMUtoCAM.at(0), false);
        for (auto &x : uvd) {
          V3 c = vj::global_to_cam(pos.at(x.first), I, C);
          if (s->_clones_IMU.count(ta)) check(std::abs(c(2) - x.second(2)) < 1e-6 * (1 + std::abs(c(2))), "reported:active-depth", at + fmt("depth %.4f against %.4f", x.second(2), c(2)));
        }
        count("active", uvd.size());
      }
      count("landmarks", slam.size());
      long anchored = 0;
      for (auto &l : s->_features_SLAM) anchored += relrep(l.second->_feat_representation);
      count("anchored", anchored);
    }
  }
  check(n > 10, "run:short", info);
  if (was_full) count("full-runs");
  count(fmt("sequence:%d", seq));
  count(fmt("rep:%d", (int)o.state_options.feat_rep_slam));
  if (ctx().nsamples < 3) sample(info + fmt(": %ld frames, %zu landmarks at the end, position error %.3f m", n, p.s()->_features_SLAM.size(), [&] { Eigen::Matrix<double, 17, 1> x; return p.sim->get_state(p.s()->_timestamp + p.truth.calib_camimu_dt, x) ? (x.segment(5, 3) - p.s()->_imu->pos()).norm() : -1; }()));
}
int main(int argc, char **argv) {
  init(argc, argv);
  ov_core::Printer::setPrintLevel(getenv("VP_PRINT") ? "ALL" : "SILENT");
  run_cases(ctx().a.thorough() ? 9000 : 600, one);
  return finish();
}
