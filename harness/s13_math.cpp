// S13: rotation algebra and manifold updates against independent formulas.
#include "vh.h"
#include "types/IMU.h"
#include "types/JPLQuat.h"
#include "types/PoseJPL.h"
#include "types/Vec.h"
#include "utils/quat_ops.h"
using namespace vh;
using namespace ov_core;
using ov_type::Type; using ov_type::JPLQuat; using ov_type::PoseJPL; using ov_type::IMU;

static const double PI = M_PI;

static V3 rotvec(Rng &r, std::string &regime) {
  V3 d = r.dir();
  if (r.p(0.3)) { d.setZero(); d(r.i(0, 2)) = r.p(0.5) ? 1 : -1; }
  switch (r.i(0, 6)) {
  case 0: regime = "zero"; return V3::Zero();
  case 1: regime = "tiny"; return d * r.logu(1e-14, 1e-5);
  case 2: regime = "small"; return d * r.logu(1e-5, 1e-2);
  case 3: regime = "nearpi"; return d * (PI - r.logu(1e-9, 1e-2));
  case 4: regime = "pi"; return d * PI;
  case 5: regime = "beyond"; return d * r.u(PI + 1e-2, 2 * PI - 1e-3);
  default: regime = "mid"; return d * r.u(1e-2, PI - 1e-2);
  }
}
// matrix exponential by scaling and squaring with a long Taylor series
static Eigen::MatrixXd expmat(Eigen::MatrixXd A) {
  int s = 0;
  while (A.cwiseAbs().maxCoeff() > 0.05) { A *= 0.5; s++; }
  Eigen::MatrixXd E = Eigen::MatrixXd::Identity(A.rows(), A.cols()), T = E;
  for (int k = 1; k < 14; k++) { T = T * A / k; E += T; }
  for (int k = 0; k < s; k++) E = E * E;
  return E;
}

static void maps(Rng &r) {
  std::string reg;
  V3 w = rotvec(r, reg);
  double th = w.norm();
  std::string d = fmt("w = (%.17g, %.17g, %.17g)", w(0), w(1), w(2));
  M3 Rref = expm(w), R = exp_so3(w);
  near(R, Rref, 2e-14 + 1e-15 * th, "exp_so3:" + reg, d);
  near(R * R.transpose(), M3::Identity(), 1e-13, "exp_so3:orthonormal", d);
  near(R.determinant(), 1, 1e-13, "exp_so3:det", d);
  // log
  V3 l = log_so3(Rref);
  check(l.allFinite(), "log_so3:finite:" + reg, d);
  V3 lref = logm(Rref);
  double tl = lref.norm();
  if (tl < PI - 2e-5) {
    double tol = 1e-12 + 1e-9 * tl + ((PI - tl < 0.1) ? 1e-14 / ((PI - tl) * (PI - tl)) + 1e-8 : 0);
    near(l, lref, tol, "log_so3:" + reg, d);
  } else {
    near(expm(l), Rref, 2e-2, "log_so3:halfturn", d);
    near(l.norm(), PI, 3e-4, "log_so3:halfturn-angle", d);
  }
  near(exp_so3(log_so3(Rref)), Rref, (tl > PI - 2e-5 ? 2e-2 : 1e-8 + 1e-14 / ((PI - tl) * (PI - tl))), "explog:" + reg, d);
  // hat / vee
  near(skew_x(w), skew(w), 0, "skew_x", d);
  V3 b = r.v3();
  near(skew_x(w) * b, w.cross(b), 1e-13 * (1 + th), "skew-cross", d);
  near(vee(skew_x(w)), w, 0, "vee", d);
  // left and right Jacobian of the exponential: Exp(w+e) = Exp(Jl e) Exp(w) = Exp(w) Exp(Jr e)
  if (tl < PI - 0.05 || reg == "beyond") {
    auto fl = [&](const Vec &e) -> Vec { return logm(expm(w + V3(e)) * Rref.transpose()); };
    auto fr = [&](const Vec &e) -> Vec { return logm(Rref.transpose() * expm(w + V3(e))); };
    near(Jl_so3(w), numjac4(fl, 3, 1e-3), 1e-6, "Jl_so3:" + reg, d);
    near(Jr_so3(w), numjac4(fr, 3, 1e-3), 1e-6, "Jr_so3:" + reg, d);
  }
  // se3
  Eigen::Matrix<double, 6, 1> xi;
  xi << w, r.v3(r.logu(1e-3, 10));
  Eigen::Matrix4d H = Eigen::Matrix4d::Zero();
  H.block(0, 0, 3, 3) = skew(w);
  H.block(0, 3, 3, 1) = xi.tail(3);
  near(hat_se3(xi), H, 0, "hat_se3", d);
  Eigen::Matrix4d T = exp_se3(xi), Tref = expmat(H);
  double sc = 1 + xi.tail(3).norm();
  // (1 - cos t)/t^2 loses digits for tiny angles: allow what the closed form can deliver in double precision
  near(T, Tref, sc * (1e-12 + (th < 1e-2 ? 1e-8 * th + 1e-9 : 0)), "exp_se3:" + reg, d);
  near(T.row(3), Eigen::RowVector4d(0, 0, 0, 1), 0, "exp_se3:lastrow", d);
  if (tl < PI - 1e-3 && reg != "beyond") {
    Eigen::Matrix<double, 6, 1> back = log_se3(Tref);
    near(back, xi, sc * (1e-8 + (PI - tl < 0.1 ? 1e-7 : 0)), "log_se3:" + reg, d);
    near(exp_se3(log_se3(Tref)), Tref, sc * 1e-7, "explog_se3:" + reg, d);
  }
  Eigen::Matrix4d Ti = Inv_se3(Tref);
  near(Ti * Tref, Eigen::Matrix4d::Identity(), 1e-12 * sc, "Inv_se3", d);
  near(Ti.row(3), Eigen::RowVector4d(0, 0, 0, 1), 0, "Inv_se3:lastrow", d);
  distinct("maps:" + reg + fmt(":%d", (int)std::floor(std::log10(th + 1e-16))) + fmt(":%d%d%d", w(0) > 0, w(1) > 0, w(2) > 0));
  count("regime:" + reg);
}

static M3 tricky_rotation(Rng &r, std::string &reg) {
  switch (r.i(0, 5)) {
  case 0: { reg = "axis180"; V3 a = V3::Zero(); a(r.i(0, 2)) = 1; return expm(a * PI); }
  case 1: { reg = "near180"; return expm(r.dir() * (PI - r.logu(1e-12, 1e-3))); }
  case 2: { reg = "identity"; return M3::Identity(); }
  case 3: { reg = "near0"; return expm(r.dir() * r.logu(1e-14, 1e-3)); }
  case 4: { reg = "axis90"; V3 a = V3::Zero(); a(r.i(0, 2)) = r.p(0.5) ? 1 : -1; M3 R = expm(a * PI / 2); return R.array().round().matrix(); }
  default: { reg = "any"; return r.rot(); }
  }
}

static void quats(Rng &r) {
  std::string g1, g2;
  M3 R1 = tricky_rotation(r, g1), R2 = tricky_rotation(r, g2);
  std::string d = "R1:\n" + str(R1) + "\nR2:\n" + str(R2);
  Eigen::Vector4d q1 = rot_2_quat(R1), q2 = rot_2_quat(R2);
  near(q1.norm(), 1, 1e-12, "rot_2_quat:unit", d);
  check(q1(3) >= 0, "rot_2_quat:scalar-positive", d);
  near(jpl2R(q1), R1, 1e-9, "rot_2_quat:" + g1, d);
  near(quat_2_Rot(q1), jpl2R(q1), 1e-13, "quat_2_Rot:" + g1, d);
  near(quat_2_Rot(-q1), jpl2R(q1), 1e-13, "quat_2_Rot:negated", d);
  near(quat_2_Rot(q1) * quat_2_Rot(q1).transpose(), M3::Identity(), 1e-12, "quat_2_Rot:orthonormal", d);
  Eigen::Vector4d qa = r.quat(), qb = r.quat();
  if (r.p(0.5)) qa = -qa;
  Eigen::Vector4d qc = quat_multiply(qa, qb), qd = quat_multiply(q1, q2);
  near(qc.norm(), 1, 1e-13, "quat_multiply:unit", d);
  check(qc(3) >= 0 && qd(3) >= 0, "quat_multiply:scalar-positive", d);
  near(jpl2R(qc), jpl2R(qa) * jpl2R(qb), 1e-12, "quat_multiply:product", d);
  near(jpl2R(qd), R1 * R2, 4e-9, "quat_multiply:special-product", d);
  near(jpl2R(Inv(qa)), jpl2R(qa).transpose(), 1e-13, "quat-inverse", d);
  Eigen::Vector4d id = quat_multiply(qa, Inv(qa));
  near(id, Eigen::Vector4d(0, 0, 0, 1), 1e-13, "quat-inverse:identity", d);
  // associativity
  Eigen::Vector4d q3 = r.quat();
  near(jpl2R(quat_multiply(quat_multiply(qa, qb), q3)), jpl2R(quat_multiply(qa, quat_multiply(qb, q3))), 1e-12, "quat_multiply:associative", d);
  // long products stay on the manifold
  Eigen::Vector4d q = qa;
  M3 Q = jpl2R(qa);
  for (int k = 0; k < 50; k++) {
    Eigen::Vector4d s = r.quat();
    q = quat_multiply(s, q);
    Q = jpl2R(s) * Q;
  }
  near(q.norm(), 1, 1e-13, "quat_multiply:drift", d);
  near(jpl2R(q), Q, 1e-11, "quat_multiply:chain", d);
  // quatnorm
  double sc = r.logu(0.01, 100) * (r.p(0.5) ? 1 : -1);
  Eigen::Vector4d qn = quatnorm(qa * sc);
  near(qn.norm(), 1, 1e-13, "quatnorm:unit", d);
  check(qn(3) >= 0, "quatnorm:scalar-positive", d);
  near(jpl2R(qn), jpl2R(qa), 1e-12, "quatnorm:same-rotation", d);
  // kinematics: qdot = 1/2 Omega(w) q and Rdot = -[w x] R
  V3 w = r.v3(r.logu(0.01, 5));
  double h = 1e-6;
  Eigen::Vector4d qp = qb + h * 0.5 * Omega(w) * qb;
  qp.normalize();
  near((jpl2R(qp) - jpl2R(qb)) / h, -skew(w) * jpl2R(qb), 1e-4 * (1 + w.squaredNorm()), "Omega", d);
  near(Omega(w) + Omega(w).transpose(), Eigen::Matrix4d::Zero(), 1e-12, "Omega:antisymmetric", d);
  distinct("quat:" + g1 + ":" + g2);
}

static void euler(Rng &r) {
  double roll = r.u(-PI, PI), pitch = r.u(-PI / 2 + 1e-3, PI / 2 - 1e-3), yaw = r.u(-PI, PI);
  std::string reg = "any";
  if (r.p(0.1)) { pitch = (r.p(0.5) ? 1 : -1) * PI / 2; reg = pitch > 0 ? "gimbal+" : "gimbal-"; }
  else if (r.p(0.2)) { roll = 0; yaw = 0; reg = "pure"; }
  V3 X(1, 0, 0), Y(0, 1, 0), Z(0, 0, 1);
  std::string d = fmt("rpy = %.17g %.17g %.17g", roll, pitch, yaw);
  near(rot_x(roll), expm(roll * X), 1e-13, "rot_x", d);
  near(rot_y(pitch), expm(pitch * Y), 1e-13, "rot_y", d);
  near(rot_z(yaw), expm(yaw * Z), 1e-13, "rot_z", d);
  M3 R = expm(yaw * Z) * expm(pitch * Y) * expm(roll * X);
  if (reg[0] == 'g') { // exact gimbal lock, without rounding noise in the entries that decide the branch
    R(0, 0) = R(1, 0) = R(2, 1) = R(2, 2) = 0;
    R(2, 0) = pitch > 0 ? -1 : 1;
  }
  V3 rpy = rot2rpy(R);
  near(expm(rpy(2) * Z) * expm(rpy(1) * Y) * expm(rpy(0) * X), R, 1e-11, "rot2rpy:" + reg, d);
  if (reg[0] != 'g') {
    near(rpy(0), roll, 1e-9, "rot2rpy:roll", d);
    near(rpy(1), pitch, 1e-9, "rot2rpy:pitch", d);
    near(rpy(2), yaw, 1e-9, "rot2rpy:yaw", d);
  }
  distinct("euler:" + reg + fmt("%d%d%d", roll > 0, pitch > 0, yaw > 0));
}

// composition of the JPL error state: R(new) = Exp(-dtheta) R(old) up to third order
static void check_rot_update(const M3 &Rnew, const M3 &Rold, const V3 &dth, const std::string &key) {
  double t = dth.norm();
  near(Rnew, expm(-dth) * Rold, 1e-12 + 0.12 * t * t * t, key, fmt("|dtheta| = %.3g", t));
}

static void types(Rng &r) {
  double s = r.logu(1e-6, 0.3);
  // quaternion
  {
    JPLQuat q;
    near(q.value(), Eigen::Vector4d(0, 0, 0, 1), 0, "types:quat-default");
    near(q.Rot(), M3::Identity(), 0, "types:quat-default-rot");
    Eigen::Vector4d v0 = r.quat(), f0 = r.quat();
    q.set_value(v0);
    q.set_fej(f0);
    check(q.size() == 3 && q.id() == -1, "types:quat-size");
    for (int k = 0; k < 8; k++) {
      V3 dx = r.v3(s);
      M3 R0 = q.Rot();
      q.update(dx);
      check_rot_update(q.Rot(), R0, dx, "types:quat-update");
      near(q.Rot(), jpl2R(q.value()), 1e-12, "types:quat-cached-rotation");
      near(q.value().norm(), 1.0, 1e-12, "types:quat-unit");
      near(q.fej(), f0, 0, "types:quat-fej-unchanged");
      near(q.Rot_fej(), jpl2R(f0), 1e-12, "types:quat-fej-rotation");
    }
    auto c = std::dynamic_pointer_cast<JPLQuat>(q.clone());
    near(c->value(), q.value(), 0, "types:quat-clone-value");
    near(c->fej(), q.fej(), 0, "types:quat-clone-fej");
    near(c->Rot(), q.Rot(), 0, "types:quat-clone-rot");
    near(c->Rot_fej(), q.Rot_fej(), 0, "types:quat-clone-rotfej");
    Eigen::MatrixXd before = q.value();
    c->update(r.v3(0.1));
    near(q.value(), before, 0, "types:quat-clone-independent");
    Eigen::Vector4d f1 = r.quat();
    q.set_fej(f1);
    near(q.value(), before, 0, "types:set-fej-keeps-value");
    near(q.Rot_fej(), jpl2R(f1), 1e-12, "types:set-fej-rotation");
  }
  // pose
  {
    PoseJPL p;
    Eigen::Matrix<double, 7, 1> v0, f0;
    v0 << r.quat(), r.v3(10);
    f0 << r.quat(), r.v3(10);
    p.set_value(v0);
    p.set_fej(f0);
    int id = r.i(0, 500);
    p.set_local_id(id);
    check(p.id() == id && p.q()->id() == id && p.p()->id() == id + 3 && p.size() == 6, "types:pose-ids");
    for (int k = 0; k < 6; k++) {
      Vec dx = r.vec(6, s);
      M3 R0 = p.Rot();
      V3 p0 = p.pos();
      p.update(dx);
      check_rot_update(p.Rot(), R0, dx.head(3), "types:pose-update-rot");
      near(p.pos(), p0 + dx.tail(3), 1e-13, "types:pose-update-pos");
      near(p.value().block(0, 0, 4, 1), p.quat(), 0, "types:pose-sub-quat");
      near(p.value().block(4, 0, 3, 1), p.pos(), 0, "types:pose-sub-pos");
      near(p.Rot(), jpl2R(p.quat()), 1e-12, "types:pose-cached-rotation");
      near(p.quat().norm(), 1.0, 1e-12, "types:pose-unit");
      near(p.fej(), f0, 0, "types:pose-fej-unchanged");
      near(p.quat_fej(), f0.head(4), 0, "types:pose-fej-quat");
      near(p.pos_fej(), f0.tail(3), 0, "types:pose-fej-pos");
      near(p.Rot_fej(), jpl2R(f0.head(4)), 1e-12, "types:pose-fej-rot");
    }
    check(p.check_if_subvariable(p.q()) == p.q() && p.check_if_subvariable(p.p()) == p.p(), "types:pose-subvariable");
    check(p.check_if_subvariable(std::make_shared<ov_type::Vec>(3)) == nullptr, "types:pose-not-subvariable");
    auto c = std::dynamic_pointer_cast<PoseJPL>(p.clone());
    near(c->value(), p.value(), 0, "types:pose-clone-value");
    near(c->fej(), p.fej(), 0, "types:pose-clone-fej");
    near(c->Rot(), p.Rot(), 0, "types:pose-clone-rot");
    Eigen::MatrixXd before = p.value();
    c->update(r.vec(6, 0.1));
    near(p.value(), before, 0, "types:pose-clone-independent");
    near(p.pos(), before.block(4, 0, 3, 1), 0, "types:pose-clone-independent-sub");
    p.set_local_id(-1);
    check(p.id() == -1 && p.q()->id() == -1 && p.p()->id() == -1, "types:pose-ids-reset");
  }
  // imu
  {
    IMU m;
    Eigen::Matrix<double, 16, 1> v0, f0;
    v0 << r.quat(), r.vec(12, 3);
    f0 << r.quat(), r.vec(12, 3);
    m.set_value(v0);
    m.set_fej(f0);
    int id = r.i(0, 500);
    m.set_local_id(id);
    check(m.id() == id && m.pose()->id() == id && m.q()->id() == id && m.p()->id() == id + 3 && m.v()->id() == id + 6 && m.bg()->id() == id + 9 && m.ba()->id() == id + 12 &&
              m.size() == 15,
          "types:imu-ids");
    for (int k = 0; k < 6; k++) {
      Vec dx = r.vec(15, s);
      M3 R0 = m.Rot();
      Eigen::MatrixXd b = m.value();
      m.update(dx);
      check_rot_update(m.Rot(), R0, dx.head(3), "types:imu-update-rot");
      near(m.value().block(4, 0, 12, 1), b.block(4, 0, 12, 1) + dx.tail(12), 1e-13, "types:imu-update-vec");
      near(m.quat(), m.value().block(0, 0, 4, 1), 0, "types:imu-sub-quat");
      near(m.pos(), m.value().block(4, 0, 3, 1), 0, "types:imu-sub-pos");
      near(m.vel(), m.value().block(7, 0, 3, 1), 0, "types:imu-sub-vel");
      near(m.bias_g(), m.value().block(10, 0, 3, 1), 0, "types:imu-sub-bg");
      near(m.bias_a(), m.value().block(13, 0, 3, 1), 0, "types:imu-sub-ba");
      near(m.pose()->value(), m.value().block(0, 0, 7, 1), 0, "types:imu-sub-pose");
      near(m.Rot(), jpl2R(m.quat()), 1e-12, "types:imu-cached-rotation");
      near(m.fej(), f0, 0, "types:imu-fej-unchanged");
      near(m.quat_fej(), f0.block(0, 0, 4, 1), 0, "types:imu-fej-quat");
      near(m.pos_fej(), f0.block(4, 0, 3, 1), 0, "types:imu-fej-pos");
      near(m.vel_fej(), f0.block(7, 0, 3, 1), 0, "types:imu-fej-vel");
      near(m.bias_g_fej(), f0.block(10, 0, 3, 1), 0, "types:imu-fej-bg");
      near(m.bias_a_fej(), f0.block(13, 0, 3, 1), 0, "types:imu-fej-ba");
      near(m.Rot_fej(), jpl2R(f0.head(4)), 1e-12, "types:imu-fej-rot");
    }
    std::vector<std::shared_ptr<Type>> subs = {m.pose(), m.q(), m.p(), m.v(), m.bg(), m.ba()};
    for (auto &x : subs) check(m.check_if_subvariable(x) == x, "types:imu-subvariable");
    check(m.check_if_subvariable(std::make_shared<ov_type::Vec>(3)) == nullptr, "types:imu-not-subvariable");
    auto c = std::dynamic_pointer_cast<IMU>(m.clone());
    near(c->value(), m.value(), 0, "types:imu-clone-value");
    near(c->fej(), m.fej(), 0, "types:imu-clone-fej");
    Eigen::MatrixXd before = m.value();
    c->update(r.vec(15, 0.1));
    near(m.value(), before, 0, "types:imu-clone-independent");
    m.set_local_id(-1);
    check(m.id() == -1 && m.pose()->id() == -1 && m.q()->id() == -1 && m.p()->id() == -1 && m.v()->id() == -1 && m.bg()->id() == -1 && m.ba()->id() == -1, "types:imu-ids-reset");
  }
  // vector
  {
    int n = r.i(1, 9);
    ov_type::Vec v(n);
    Vec a = r.vec(n), f = r.vec(n), dx = r.vec(n, s);
    v.set_value(a);
    v.set_fej(f);
    v.update(dx);
    near(v.value(), a + dx, 1e-14, "types:vec-update");
    near(v.fej(), f, 0, "types:vec-fej-unchanged");
    check(v.size() == n, "types:vec-size");
    auto c = v.clone();
    near(c->value(), v.value(), 0, "types:vec-clone");
    near(c->fej(), v.fej(), 0, "types:vec-clone-fej");
    c->update(dx);
    near(v.value(), a + dx, 1e-14, "types:vec-clone-independent");
  }
  distinct(fmt("types:%d", (int)std::floor(std::log10(s))));
}

int main(int argc, char **argv) {
  init(argc, argv);
  long N = ctx().a.thorough() ? 600000 : 24000;
  run_cases(N, [&](long c, Rng &r) {
    switch (c / ctx().a.nshards % 4) {
    case 0: maps(r); break;
    case 1: quats(r); break;
    case 2: euler(r); break;
    default: types(r); break;
    }
  });
  sample("rotation vectors from 0 through 1e-14..1e-5, half turn minus 1e-9, to 2 pi; quaternion products of 50 factors; sequences of updates of every variable type");
  return finish();
}
