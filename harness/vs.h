// Random filter states for the estimator checks, built through the public interface only.
#ifndef VS_H
#define VS_H
#include "vh.h"
#include "cam/CamEqui.h"
#include "cam/CamRadtan.h"
#include "state/Propagator.h"
#include "state/State.h"
#include "state/StateHelper.h"
#include "types/IMU.h"
#include "types/JPLQuat.h"
#include "types/Landmark.h"
#include "types/LandmarkRepresentation.h"
#include "types/PoseJPL.h"
#include "types/Vec.h"
#include "utils/print.h"

namespace vs {
using namespace vh;
typedef std::shared_ptr<ov_type::Type> TP;
typedef std::shared_ptr<ov_msckf::State> SP;
typedef Eigen::Vector4d V4;
typedef ov_type::LandmarkRepresentation::Representation Rep;
static const Rep ALLREP[6] = {Rep::GLOBAL_3D, Rep::GLOBAL_FULL_INVERSE_DEPTH, Rep::ANCHORED_3D, Rep::ANCHORED_FULL_INVERSE_DEPTH,
                              Rep::ANCHORED_MSCKF_INVERSE_DEPTH, Rep::ANCHORED_INVERSE_DEPTH_SINGLE};
inline const char *repname(Rep r) {
  switch (r) {
  case Rep::GLOBAL_3D: return "G3D";
  case Rep::GLOBAL_FULL_INVERSE_DEPTH: return "GINV";
  case Rep::ANCHORED_3D: return "A3D";
  case Rep::ANCHORED_FULL_INVERSE_DEPTH: return "AINV";
  case Rep::ANCHORED_MSCKF_INVERSE_DEPTH: return "AMSCKF";
  case Rep::ANCHORED_INVERSE_DEPTH_SINGLE: return "ASINGLE";
  default: return "?";
  }
}
inline bool relrep(Rep r) { return r != Rep::GLOBAL_3D && r != Rep::GLOBAL_FULL_INVERSE_DEPTH; }

// ---- independent manifold operations
inline V4 qmul(const V4 &a, const V4 &b) { // JPL product a (x) b, so that R(a (x) b) = R(a) R(b)
  V3 av = a.head<3>(), bv = b.head<3>();
  V4 o;
  o.head<3>() = a(3) * bv + b(3) * av - av.cross(bv);
  o(3) = a(3) * b(3) - av.dot(bv);
  o.normalize();
  if (o(3) < 0) o = -o;
  return o;
}
inline V4 qplus(const V4 &q, const V3 &th) {
  V4 d;
  d << 0.5 * th, 1;
  d.normalize();
  return qmul(d, q);
}
/// x [+] dx for IMU (16/15), pose (7/6), quaternion (4/3) and vectors, told apart by type
inline Mat boxplus(const TP &v, const Mat &x, const Vec &dx) {
  Mat o = x;
  if (std::dynamic_pointer_cast<ov_type::IMU>(v)) {
    o.block(0, 0, 4, 1) = qplus(x.block(0, 0, 4, 1), dx.head(3));
    o.block(4, 0, 12, 1) += dx.tail(12);
  } else if (std::dynamic_pointer_cast<ov_type::PoseJPL>(v)) {
    o.block(0, 0, 4, 1) = qplus(x.block(0, 0, 4, 1), dx.head(3));
    o.block(4, 0, 3, 1) += dx.tail(3);
  } else if (std::dynamic_pointer_cast<ov_type::JPLQuat>(v)) o = qplus(x, dx);
  else o += dx;
  return o;
}
/// distance of two values as an error-state sized vector (quaternion sign independent)
inline Vec boxminus(const TP &v, const Mat &a, const Mat &b) {
  auto dq = [](const Mat &a, const Mat &b) -> V3 { return logm(jpl2R(V4(b)) * jpl2R(V4(a)).transpose()); };
  if (std::dynamic_pointer_cast<ov_type::IMU>(v)) { Vec o(15); o << dq(a.block(0, 0, 4, 1), b.block(0, 0, 4, 1)), a.block(4, 0, 12, 1) - b.block(4, 0, 12, 1); return o; }
  if (std::dynamic_pointer_cast<ov_type::PoseJPL>(v)) { Vec o(6); o << dq(a.block(0, 0, 4, 1), b.block(0, 0, 4, 1)), a.block(4, 0, 3, 1) - b.block(4, 0, 3, 1); return o; }
  if (std::dynamic_pointer_cast<ov_type::JPLQuat>(v)) return dq(a, b);
  return a - b;
}

inline ov_msckf::StateOptions rand_options(Rng &r) {
  ov_msckf::StateOptions o;
  o.do_fej = r.p(0.5);
  o.integration_method = (ov_msckf::StateOptions::IntegrationMethod)r.i(0, 2);
  o.do_calib_camera_pose = r.p(0.6);
  o.do_calib_camera_intrinsics = r.p(0.6);
  o.do_calib_camera_timeoffset = r.p(0.6);
  o.do_calib_imu_intrinsics = r.p(0.6);
  o.do_calib_imu_g_sensitivity = r.p(0.5);
  o.imu_model = r.p(0.5) ? ov_msckf::StateOptions::KALIBR : ov_msckf::StateOptions::RPNG;
  o.num_cameras = r.i(1, 3);
  o.max_clone_size = r.i(3, 9);
  o.max_slam_features = r.i(5, 30);
  o.max_aruco_features = r.i(0, 3);
  return o;
}
inline std::string optname(const ov_msckf::StateOptions &o) {
  return fmt("fej%d int%d ext%d intr%d dt%d imuint%d g%d model%d cams%d", o.do_fej, (int)o.integration_method, o.do_calib_camera_pose, o.do_calib_camera_intrinsics,
             o.do_calib_camera_timeoffset, o.do_calib_imu_intrinsics, o.do_calib_imu_g_sensitivity, (int)o.imu_model, o.num_cameras);
}
inline Vec rand_cam(Rng &r, bool fisheye, double distort = 1) {
  Vec c(8);
  c << r.u(380, 520), r.u(380, 520), r.u(340, 400), r.u(220, 260), 0, 0, 0, 0;
  if (fisheye) c.tail(4) << r.u(-0.03, 0.03), r.u(-0.01, 0.01), r.u(-0.005, 0.005), r.u(-0.002, 0.002);
  else c.tail(4) << r.u(-0.3, 0.05), r.u(-0.05, 0.08), r.u(-1e-3, 1e-3), r.u(-1e-3, 1e-3);
  c.tail(4) *= distort;
  return c;
}
inline void set_both(const TP &v, const Mat &x) { v->set_value(x); v->set_fej(x); }
/// random calibration, cameras and inertial state (no clones yet)
inline SP make_state(ov_msckf::StateOptions &o, Rng &r, double distort = 1) {
  auto s = std::make_shared<ov_msckf::State>(o);
  for (int i = 0; i < o.num_cameras; i++) {
    bool fish = r.p(0.5);
    Vec c = rand_cam(r, fish, distort);
    std::shared_ptr<ov_core::CamBase> cam;
    if (fish) cam = std::make_shared<ov_core::CamEqui>(752, 480);
    else cam = std::make_shared<ov_core::CamRadtan>(752, 480);
    cam->set_value(c);
    s->_cam_intrinsics_cameras.insert({(size_t)i, cam});
    set_both(s->_cam_intrinsics.at(i), c);
    Mat e(7, 1);
    e << R2jpl(expm(r.v3(0.3)) * (M3() << 0, -1, 0, 0, 0, -1, 1, 0, 0).finished()), r.v3(0.05);
    set_both(s->_calib_IMUtoCAM.at(i), e);
  }
  Mat x(16, 1);
  x << r.quat(), r.v3(2), r.v3(1), r.v3(0.05), r.v3(0.1);
  set_both(s->_imu, x);
  Mat t(1, 1);
  t << r.u(-0.02, 0.02);
  set_both(s->_calib_dt_CAMtoIMU, t);
  Mat dw(6, 1), da(6, 1), tg(9, 1);
  if (o.imu_model == ov_msckf::StateOptions::KALIBR) dw << 1, 0, 0, 1, 0, 1;
  else dw << 1, 0, 1, 0, 0, 1;
  da = dw;
  dw += r.vec(6, 0.01); da += r.vec(6, 0.01); tg = r.vec(9, 0.003);
  set_both(s->_calib_imu_dw, dw);
  set_both(s->_calib_imu_da, da);
  set_both(s->_calib_imu_tg, o.do_calib_imu_g_sensitivity || r.p(0.3) ? tg : Mat(Mat::Zero(9, 1)));
  if (o.imu_model == ov_msckf::StateOptions::KALIBR) set_both(s->_calib_imu_GYROtoIMU, R2jpl(expm(r.v3(0.05))));
  else set_both(s->_calib_imu_ACCtoIMU, R2jpl(expm(r.v3(0.05))));
  return s;
}
/// every variable the state holds that is reachable from the public members, in no particular order
inline std::vector<TP> variables(const SP &s) {
  std::vector<TP> v{s->_imu};
  auto add = [&](const TP &t) { if (t && t->id() >= 0) v.push_back(t); };
  auto &o = s->_options;
  if (o.do_calib_imu_intrinsics) {
    add(s->_calib_imu_dw); add(s->_calib_imu_da);
    if (o.do_calib_imu_g_sensitivity) add(s->_calib_imu_tg);
    if (o.imu_model == ov_msckf::StateOptions::KALIBR) add(s->_calib_imu_GYROtoIMU);
    else add(s->_calib_imu_ACCtoIMU);
  }
  if (o.do_calib_camera_timeoffset) add(s->_calib_dt_CAMtoIMU);
  for (int i = 0; i < o.num_cameras; i++) {
    if (o.do_calib_camera_pose) add(s->_calib_IMUtoCAM.at(i));
    if (o.do_calib_camera_intrinsics) add(s->_cam_intrinsics.at(i));
  }
  for (auto &c : s->_clones_IMU) v.push_back(c.second);
  for (auto &f : s->_features_SLAM) v.push_back(f.second);
  return v;
}
inline int total(const std::vector<TP> &v) { int n = 0; for (auto &x : v) n += x->size(); return n; }
/// blocks are disjoint, contiguous and tile the covariance
inline bool check_tiling(const SP &s, const std::vector<TP> &vars, const std::string &key, const std::string &d = "") {
  std::vector<TP> v = vars;
  std::sort(v.begin(), v.end(), [](const TP &a, const TP &b) { return a->id() < b->id(); });
  int at = 0;
  for (auto &x : v) {
    if (!check(x->id() == at, key + ":tiling", d + fmt(" variable at %d where %d was expected", x->id(), at))) return false;
    at += x->size();
  }
  return check(at == s->max_covariance_size(), key + ":tiling-size", d + fmt(" variables cover %d of %d", at, s->max_covariance_size()));
}
/// covariance in the order of the given variables, cut out of the full covariance by the variables' ids
inline Mat cov_of(const SP &s, const std::vector<TP> &v) {
  Mat F = ov_msckf::StateHelper::get_full_covariance(s);
  int n = total(v), a = 0;
  Mat P(n, n);
  for (auto &x : v) {
    int b = 0;
    for (auto &y : v) { P.block(a, b, x->size(), y->size()) = F.block(x->id(), y->id(), x->size(), y->size()); b += y->size(); }
    a += x->size();
  }
  return P;
}
/// random joint covariance with per-variable scales, set through the public interface
inline Mat rand_cov(const SP &s, const std::vector<TP> &v, Rng &r, double scale = 1) {
  int n = total(v), a = 0;
  Mat P = r.psd(n, 1, 0.05);
  Vec d(n);
  for (auto &x : v) {
    double sc = r.logu(3e-3, 0.1) * scale;
    if (x->size() == 8) sc *= 0.1;
    for (int k = 0; k < x->size(); k++) d(a++) = sc * r.u(0.7, 1.4);
  }
  P = d.asDiagonal() * P * d.asDiagonal();
  P = 0.5 * (P + P.transpose()).eval();
  ov_msckf::StateHelper::set_initial_covariance(s, P, v);
  return P;
}
/// advances the filter time and clones; the pose is then set at random if wanted
inline std::shared_ptr<ov_type::PoseJPL> add_clone(const SP &s, double t, const V3 &w) {
  s->_timestamp = t;
  ov_msckf::StateHelper::augment_clone(s, w);
  return s->_clones_IMU.at(t);
}
} // namespace vs
#endif
