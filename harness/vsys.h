// Random worlds for the simulator and the whole estimator: options, calibration, cameras and a trajectory file.
#ifndef VSYS_H
#define VSYS_H
#include "core/VioManagerOptions.h"
#include "sim/Simulator.h"
#include "vimu.h"
#include "vj.h"
extern "C" unsigned sleep(unsigned) { return 0; } // the simulator's constructor waits for its reader
namespace vsys {
using namespace vimu;
typedef ov_msckf::VioManagerOptions Opt;
typedef std::vector<std::vector<std::pair<size_t, Eigen::VectorXf>>> Feats;

/// sums of three sines for the position and the orientation
struct Motion {
  V3 A[3], a[3], B[3], b[3], v;
  double w[3], u[3];
  M3 R0;
  Motion() {}
  Motion(Rng &r, double trans, double rot, double speed = 0) {
    for (int k = 0; k < 3; k++) {
      w[k] = r.u(0.6, 2.2);
      u[k] = r.u(0.4, 1.8);
      A[k] = trans / (w[k] * w[k]) * r.v3(0.6);
      B[k] = rot / u[k] * r.v3(0.5);
      a[k] = r.box(3.1);
      b[k] = r.box(3.1);
    }
    v = speed * r.dir();
    R0 = r.rot();
  }
  V3 p(double t) const {
    V3 o = v * t;
    for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) o(i) += A[k](i) * std::sin(w[k] * t + a[k](i));
    return o;
  }
  M3 R(double t) const {
    V3 o = V3::Zero();
    for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) o(i) += B[k](i) * std::sin(u[k] * t + b[k](i));
    return expm(o) * R0;
  }
};
inline std::string write_traj(const Motion &m, double t0, double dur, double dt, const std::string &path) {
  FILE *f = fopen(path.c_str(), "w");
  if (!f) { perror(path.c_str()); exit(3); }
  fprintf(f, "# timestamp(s) tx ty tz qx qy qz qw\n");
  for (double t = 0; t <= dur + 1e-9; t += dt) {
    V3 p = m.p(t);
    V4 q = R2jpl(m.R(t));
    fprintf(f, "%.9f %.12f %.12f %.12f %.12f %.12f %.12f %.12f\n", t0 + t, p(0), p(1), p(2), q(0), q(1), q(2), q(3));
  }
  fclose(f);
  return path;
}
inline std::string scratch_file(const std::string &name) { return vh::ctx().a.scratch + "/" + name + std::to_string(getpid()); }
/// the initializer has its own copy of the calibration
inline void copy_init(Opt &o) {
  auto &n = o.init_options;
  n.num_cameras = o.state_options.num_cameras;
  n.use_stereo = o.use_stereo;
  n.gravity_mag = o.gravity_mag;
  n.calib_camimu_dt = o.calib_camimu_dt;
  n.camera_intrinsics.clear();
  n.camera_extrinsics.clear();
  for (auto &c : o.camera_intrinsics) {
    std::shared_ptr<ov_core::CamBase> k;
    if (std::dynamic_pointer_cast<ov_core::CamEqui>(c.second)) k = std::make_shared<ov_core::CamEqui>(c.second->w(), c.second->h());
    else k = std::make_shared<ov_core::CamRadtan>(c.second->w(), c.second->h());
    k->set_value(c.second->get_value());
    n.camera_intrinsics.insert({c.first, k});
  }
  for (auto &e : o.camera_extrinsics) n.camera_extrinsics.insert({e.first, e.second});
}

/// calibration and cameras; everything else keeps a simple value
inline Opt base(Rng &r, int ncam, bool distorted_imu, double dt_max = 0.02, double lens = 1) {
  Opt o;
  auto &s = o.state_options;
  s.num_cameras = ncam;
  s.imu_model = r.p(0.5) ? SO::KALIBR : SO::RPNG;
  s.max_aruco_features = r.p(0.5) ? 0 : r.i(1, 50);
  o.use_aruco = false;
  o.num_opencv_threads = 0;
  o.use_multi_threading_pubs = false;
  o.use_multi_threading_subs = false;
  o.gravity_mag = r.p(0.5) ? 9.81 : r.u(9.7, 9.9);
  o.calib_camimu_dt = r.p(0.3) ? 0.0 : r.u(-dt_max, dt_max);
  if (s.imu_model == SO::KALIBR) o.vec_dw << 1, 0, 0, 1, 0, 1;
  else o.vec_dw << 1, 0, 1, 0, 0, 1;
  o.vec_da = o.vec_dw;
  o.vec_tg.setZero();
  o.q_ACCtoIMU << 0, 0, 0, 1;
  o.q_GYROtoIMU << 0, 0, 0, 1;
  if (distorted_imu) {
    o.vec_dw += r.vec(6, 0.01);
    o.vec_da += r.vec(6, 0.01);
    if (r.p(0.6)) o.vec_tg = r.vec(9, 0.003);
    if (s.imu_model == SO::KALIBR) o.q_GYROtoIMU = R2jpl(expm(r.v3(0.02)));
    else o.q_ACCtoIMU = R2jpl(expm(r.v3(0.02)));
  }
  M3 Rb = r.p(0.5) ? (M3() << 0, -1, 0, 0, 0, -1, 1, 0, 0).finished() : r.rot();
  V3 pb = r.v3(0.05);
  for (int i = 0; i < ncam; i++) {
    bool fish = r.p(0.5);
    std::shared_ptr<ov_core::CamBase> cam;
    if (fish) cam = std::make_shared<ov_core::CamEqui>(752, 480);
    else cam = std::make_shared<ov_core::CamRadtan>(752, 480);
    cam->set_value(rand_cam(r, fish, lens));
    o.camera_intrinsics.insert({(size_t)i, cam});
    Vec e(7);
    e << R2jpl(expm(r.v3(0.03)) * Rb), V3(pb + i * V3(-0.15, 0, 0) + r.v3(0.01));
    o.camera_extrinsics.insert({(size_t)i, e});
  }
  copy_init(o);
  return o;
}
inline Opt copy(const Opt &a) { // without sharing the cameras
  Opt o = a;
  for (auto &c : o.camera_intrinsics) {
    std::shared_ptr<ov_core::CamBase> n;
    if (std::dynamic_pointer_cast<ov_core::CamEqui>(c.second)) n = std::make_shared<ov_core::CamEqui>(c.second->w(), c.second->h());
    else n = std::make_shared<ov_core::CamRadtan>(c.second->w(), c.second->h());
    n->set_value(c.second->get_value());
    c.second = n;
  }
  copy_init(o);
  return o;
}
inline Cal cal_of(const Opt &o) {
  Cal c;
  c.Dw = tri(o.state_options.imu_model, o.vec_dw);
  c.Da = tri(o.state_options.imu_model, o.vec_da);
  for (int k = 0; k < 9; k++) c.Tg(k % 3, k / 3) = o.vec_tg(k);
  c.Rw = jpl2R(V4(o.q_GYROtoIMU));
  c.Ra = jpl2R(V4(o.q_ACCtoIMU));
  c.bg = c.ba = V3::Zero();
  return c;
}
inline vj::Pose extr(const Opt &o, int cam) { const Eigen::VectorXd &e = o.camera_extrinsics.at(cam); return {jpl2R(V4(e.head(4))), e.tail(3)}; }
inline bool is_fish(const Opt &o, int cam) { return std::dynamic_pointer_cast<ov_core::CamEqui>(o.camera_intrinsics.at(cam)) != nullptr; }
/// pixel of a point in the camera frame
inline vj::V2 pixel(const Opt &o, int cam, const V3 &pC) { return vj::distort(o.camera_intrinsics.at(cam)->get_value(), is_fish(o, cam), vj::V2(pC(0) / pC(2), pC(1) / pC(2))); }
} // namespace vsys
#endif
