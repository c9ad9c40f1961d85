// Independent projection, landmark and camera formulas used as oracles.
#ifndef VJ_H
#define VJ_H
#include "vs.h"
namespace vj {
using namespace vs;
typedef Eigen::Vector2d V2;
inline V2 distort(const Vec &c, bool fish, const V2 &n) {
  double x = n(0), y = n(1), r2 = x * x + y * y, xd, yd;
  if (!fish) {
    double g = 1 + c(4) * r2 + c(5) * r2 * r2;
    xd = x * g + 2 * c(6) * x * y + c(7) * (r2 + 2 * x * x);
    yd = y * g + c(6) * (r2 + 2 * y * y) + 2 * c(7) * x * y;
  } else {
    double r = std::sqrt(r2), t = std::atan(r), t2 = t * t;
    double td = t * (1 + t2 * (c(4) + t2 * (c(5) + t2 * (c(6) + t2 * c(7)))));
    double k = r > 1e-9 ? td / r : 1;
    xd = x * k; yd = y * k;
  }
  return V2(c(0) * xd + c(2), c(1) * yd + c(3));
}
/// representation parameters of a point (in the global or the anchor camera frame)
inline Vec rep_from_xyz(Rep rep, const V3 &p) {
  Vec o(3);
  switch (rep) {
  case Rep::GLOBAL_3D: case Rep::ANCHORED_3D: return p;
  case Rep::GLOBAL_FULL_INVERSE_DEPTH: case Rep::ANCHORED_FULL_INVERSE_DEPTH: o << std::atan2(p(1), p(0)), std::atan2(std::hypot(p(0), p(1)), p(2)), 1 / p.norm(); return o;
  case Rep::ANCHORED_MSCKF_INVERSE_DEPTH: o << p(0) / p(2), p(1) / p(2), 1 / p(2); return o;
  default: { Vec s(1); s << 1 / p(2); return s; }
  }
}
inline V3 rep_to_xyz(Rep rep, const Vec &l, const V3 &bearing) {
  switch (rep) {
  case Rep::GLOBAL_3D: case Rep::ANCHORED_3D: return l;
  case Rep::GLOBAL_FULL_INVERSE_DEPTH: case Rep::ANCHORED_FULL_INVERSE_DEPTH: return V3(std::cos(l(0)) * std::sin(l(1)), std::sin(l(0)) * std::sin(l(1)), std::cos(l(1))) / l(2);
  case Rep::ANCHORED_MSCKF_INVERSE_DEPTH: return V3(l(0), l(1), 1) / l(2);
  default: return bearing / l(0);
  }
}
struct Pose { M3 R; V3 p; };                                       // R_GtoX, p_XinG or the extrinsic R_ItoC, p_IinC
inline Pose perturb(const Pose &P, const Vec &d) { return {expm(-V3(d.head(3))) * P.R, P.p + d.tail(3)}; }
inline Pose pose_of(const std::shared_ptr<ov_type::PoseJPL> &q, bool fej) { Mat v = fej ? q->fej() : q->value(); return {jpl2R(V4(v.block(0, 0, 4, 1))), v.block(4, 0, 3, 1)}; }
inline V3 cam_to_global(const V3 &pA, const Pose &I, const Pose &C) { return I.R.transpose() * (C.R.transpose() * (pA - C.p)) + I.p; }
inline V3 global_to_cam(const V3 &pG, const Pose &I, const Pose &C) { return C.R * (I.R * (pG - I.p)) + C.p; }
/// sets clones along a short, smooth path around the current inertial pose, all looking roughly the same way
inline std::vector<double> make_clones(const SP &s, Rng &r, int n, double step = 0.25, double rot = 0.06) {
  std::vector<double> ts;
  Mat x = s->_imu->value();
  M3 R = jpl2R(V4(x.block(0, 0, 4, 1)));
  V3 p = x.block(4, 0, 3, 1), dv = r.dir();
  double t = s->_timestamp > 0 ? s->_timestamp : r.u(1, 50);
  for (int i = 0; i < n; i++) {
    R = expm(r.v3(rot)) * R;
    p += step * (0.6 * dv + r.v3(0.6));
    x.block(0, 0, 4, 1) = R2jpl(R);
    x.block(4, 0, 3, 1) = p;
    set_both(s->_imu, x);
    t += r.u(0.03, 0.3);
    add_clone(s, t, r.v3(0.3));
    ts.push_back(t);
  }
  return ts;
}
/// first estimates that differ from the current ones
inline void split_fej(const SP &s, Rng &r, double rot = 0.01, double pos = 0.02) {
  for (auto &c : s->_clones_IMU) {
    Mat v = c.second->value();
    v.block(0, 0, 4, 1) = R2jpl(expm(r.v3(rot)) * jpl2R(V4(v.block(0, 0, 4, 1))));
    v.block(4, 0, 3, 1) += r.v3(pos);
    c.second->set_fej(v);
  }
}
} // namespace vj
#endif
