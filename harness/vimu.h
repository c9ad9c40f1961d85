// Inertial readings and independent integration of the calibrated inertial model.
#ifndef VIMU_H
#define VIMU_H
#include "utils/sensor_data.h"
#include "vs.h"
namespace vimu {
using namespace vs;
typedef ov_core::ImuData Imu;
typedef ov_msckf::StateOptions SO;

struct Cal { M3 Dw, Da, Tg, Rw, Ra; V3 bg, ba; };
inline M3 tri(SO::ImuModel m, const Mat &d) {
  M3 D = M3::Zero();
  if (m == SO::KALIBR) { D(0, 0) = d(0); D(1, 0) = d(1); D(2, 0) = d(2); D(1, 1) = d(3); D(2, 1) = d(4); D(2, 2) = d(5); }
  else { D(0, 0) = d(0); D(0, 1) = d(1); D(1, 1) = d(2); D(0, 2) = d(3); D(1, 2) = d(4); D(2, 2) = d(5); }
  return D;
}
inline Cal cal_of(const SP &s) {
  Cal c;
  c.Dw = tri(s->_options.imu_model, s->_calib_imu_dw->value());
  c.Da = tri(s->_options.imu_model, s->_calib_imu_da->value());
  Mat g = s->_calib_imu_tg->value();
  for (int k = 0; k < 9; k++) c.Tg(k % 3, k / 3) = g(k);
  c.Rw = jpl2R(V4(s->_calib_imu_GYROtoIMU->value()));
  c.Ra = jpl2R(V4(s->_calib_imu_ACCtoIMU->value()));
  Mat x = s->_imu->value();
  c.bg = x.block(10, 0, 3, 1);
  c.ba = x.block(13, 0, 3, 1);
  return c;
}
struct WA { double t; V3 w, a; };
inline WA correct(const Cal &c, const Imu &m) {
  WA o;
  o.t = m.timestamp;
  o.a = c.Ra * c.Da * (m.am - c.ba);
  o.w = c.Rw * c.Dw * (m.wm - c.bg - c.Tg * o.a);
  return o;
}
struct Nav { M3 R; V3 p, v; }; // R: global to body
inline Nav nav_of(const Mat &x) { return {jpl2R(V4(x.block(0, 0, 4, 1))), x.block(4, 0, 3, 1), x.block(7, 0, 3, 1)}; }
/// what a linear signal through the readings is at the ends and at the readings strictly inside
inline std::vector<Imu> select(const std::vector<Imu> &all, double t0, double t1) {
  std::vector<Imu> d; // without repeated stamps, the last of equal ones
  for (auto &m : all) { if (!d.empty() && m.timestamp == d.back().timestamp) d.back() = m; else d.push_back(m); }
  auto at = [&](double t) {
    size_t k = 0;
    while (k + 2 < d.size() && d[k + 1].timestamp < t) k++;
    double l = (t - d[k].timestamp) / (d[k + 1].timestamp - d[k].timestamp);
    Imu o;
    o.timestamp = t;
    o.wm = (1 - l) * d[k].wm + l * d[k + 1].wm;
    o.am = (1 - l) * d[k].am + l * d[k + 1].am;
    return o;
  };
  std::vector<Imu> o{at(t0)};
  for (auto &m : d) if (m.timestamp > t0 && m.timestamp < t1) o.push_back(m);
  o.push_back(at(t1));
  return o;
}
inline Nav step_discrete(const Nav &n, const WA &x, const WA &y, const V3 &g) {
  double dt = y.t - x.t;
  V3 w = 0.5 * (x.w + y.w), a = 0.5 * (x.a + y.a);
  Nav o;
  o.R = expm(-w * dt) * n.R;
  V3 ag = n.R.transpose() * a - g;
  o.v = n.v + ag * dt;
  o.p = n.p + n.v * dt + 0.5 * ag * dt * dt;
  return o;
}
/// constant mean readings, rotation of the acceleration integrated exactly (to quadrature accuracy)
inline Nav step_exact_mean(const Nav &n, const WA &x, const WA &y, const V3 &g) {
  double dt = y.t - x.t;
  V3 w = 0.5 * (x.w + y.w), a = 0.5 * (x.a + y.a);
  static const double gx[5] = {0, 0.5384693101056831, -0.5384693101056831, 0.9061798459386640, -0.9061798459386640};
  static const double gw[5] = {0.5688888888888889, 0.4786286704993665, 0.4786286704993665, 0.2369268850561891, 0.2369268850561891};
  Nav o = n;
  o.R = expm(-w * dt) * n.R;
  V3 I1 = V3::Zero(), I2 = V3::Zero();
  int S = 4;
  for (int s = 0; s < S; s++)
    for (int q = 0; q < 5; q++) {
      double tau = dt * (s + 0.5 + 0.5 * gx[q]) / S, wt = gw[q] * 0.5 * dt / S;
      V3 f = expm(w * tau) * a;
      I1 += wt * f;
      I2 += wt * (dt - tau) * f;
    }
  o.v = n.v + n.R.transpose() * I1 - g * dt;
  o.p = n.p + n.v * dt + n.R.transpose() * I2 - 0.5 * g * dt * dt;
  return o;
}
/// readings linear over the step, integrated with many small fourth order steps
inline Nav step_truth(const Nav &n, const WA &x, const WA &y, const V3 &g, int S = 16) {
  double dt = y.t - x.t;
  S += (int)(200 * dt * std::max(x.w.norm(), y.w.norm()));
  double h = dt / S;
  M3 R = M3::Identity(); // rotation from the body now to the body at the start, transposed at the end
  V3 v = V3::Zero(), p = V3::Zero();
  auto W = [&](double t) { return V3(x.w + (y.w - x.w) * (t / dt)); };
  auto A = [&](double t) { return V3(x.a + (y.a - x.a) * (t / dt)); };
  for (int s = 0; s < S; s++) {
    double t = s * h;
    auto fR = [&](const M3 &C, double u) { return M3(C * skew(W(u))); };
    M3 k1 = fR(R, t), k2 = fR(R + 0.5 * h * k1, t + 0.5 * h), k3 = fR(R + 0.5 * h * k2, t + 0.5 * h), k4 = fR(R + h * k3, t + h);
    V3 l1 = R * A(t), l2 = (R + 0.5 * h * k1) * A(t + 0.5 * h), l3 = (R + 0.5 * h * k2) * A(t + 0.5 * h), l4 = (R + h * k3) * A(t + h);
    p += h * v + h * h / 6 * (l1 + l2 + l3);
    v += h / 6 * (l1 + 2 * l2 + 2 * l3 + l4);
    R += h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
  }
  Nav o;
  o.R = R.transpose() * n.R;
  Eigen::JacobiSVD<M3> svd(o.R, Eigen::ComputeFullU | Eigen::ComputeFullV);
  o.R = svd.matrixU() * svd.matrixV().transpose();
  o.v = n.v + n.R.transpose() * v - g * dt;
  o.p = n.p + n.v * dt + n.R.transpose() * p - 0.5 * g * dt * dt;
  return o;
}
/// a smooth random motion of the readings
struct Signal {
  V3 w0, a0, wa, aa, wf, af, wp, ap;
  bool constant = false;
  Signal(Rng &r, double wscale, double ascale) {
    w0 = r.v3(wscale); wa = r.v3(wscale); wf = V3(r.u(0.2, 6), r.u(0.2, 6), r.u(0.2, 6)); wp = r.v3(3);
    a0 = r.dir() * 9.81 + r.v3(ascale); aa = r.v3(ascale); af = V3(r.u(0.2, 6), r.u(0.2, 6), r.u(0.2, 6)); ap = r.v3(3);
  }
  Imu at(double t, double t0) const {
    Imu m;
    m.timestamp = t;
    double u = t - t0;
    for (int k = 0; k < 3; k++) {
      m.wm(k) = w0(k) + (constant ? 0 : wa(k) * std::sin(wf(k) * u + wp(k)));
      m.am(k) = a0(k) + (constant ? 0 : aa(k) * std::sin(af(k) * u + ap(k)));
    }
    return m;
  }
};
} // namespace vimu
#endif
