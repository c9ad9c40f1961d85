// S24: optimizer factors: residuals, weights, derivatives (all and any subset) against independent formulas and numerical differentiation.
#include "vj.h"
#include "ceres/Factor_GenericPrior.h"
#include "ceres/Factor_ImageReprojCalib.h"
#include "ceres/Factor_ImuCPIv1.h"
#include "ceres/State_JPLQuatLocal.h"
#include "cpi/CpiV1.h"
using namespace vj;
typedef std::vector<Vec> Params;
static Vec eval(const ceres::CostFunction &f, const Params &p, std::vector<Mat> *J = nullptr, const std::vector<bool> *want = nullptr) {
  std::vector<const double *> ptr;
  for (auto &x : p) ptr.push_back(x.data());
  Vec res = Vec::Constant(f.num_residuals(), NAN);
  std::vector<std::vector<double>> buf(p.size());
  std::vector<double *> jp(p.size(), nullptr);
  bool any = false;
  if (J) {
    for (size_t i = 0; i < p.size(); i++)
      if (!want || (*want)[i]) { buf[i].assign(f.num_residuals() * p[i].size() + 8, NAN); jp[i] = buf[i].data(); any = true; }
  }
  (void)any;
  check(f.Evaluate(ptr.data(), res.data(), J ? jp.data() : nullptr), "evaluate-failed");
  if (J) {
    J->assign(p.size(), Mat());
    for (size_t i = 0; i < p.size(); i++)
      if (jp[i]) {
        (*J)[i] = Eigen::Map<Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(jp[i], f.num_residuals(), p[i].size());
        for (int k = 0; k < 8; k++) check(std::isnan(buf[i][f.num_residuals() * p[i].size() + k]), "writes-past-the-block");
      }
  }
  return res;
}
static bool isquat(const Params &p, const std::vector<bool> &q, size_t i) { (void)p; return q[i]; }
static Params plus(const Params &p, const std::vector<bool> &q, size_t i, const Vec &d) {
  Params o = p;
  if (isquat(p, q, i)) { ov_init::State_JPLQuatLocal l; Vec x(4); l.Plus(p[i].data(), d.data(), x.data()); o[i] = x; }
  else o[i] += d;
  return o;
}
/// derivatives on the manifold, any subset of them, and that blocks outside the tangent space are zero
static void check_factor(const ceres::CostFunction &f, const Params &p, const std::vector<bool> &q, Rng &r, const std::string &key, const std::string &id, double tol, const std::vector<double> &steps, std::function<Vec(const Params &)> model = nullptr) {
  if (!model) model = [&](const Params &x) { return eval(f, x); };
  std::vector<Mat> J, Js;
  Vec res = eval(f, p, &J);
  near(eval(f, p), res, 0, key + ":residual-without-derivatives", id);
  check((int)f.parameter_block_sizes().size() == (int)p.size(), key + ":blocks", id);
  for (size_t i = 0; i < p.size(); i++) {
    check(f.parameter_block_sizes()[i] == p[i].size(), key + ":block-size", id);
    int n = q[i] ? 3 : p[i].size();
    Mat N = numjac4([&](const Vec &d) { return model(plus(p, q, i, d)); }, n, steps[i]);
    double s = N.cwiseAbs().maxCoeff();
    Mat a = J[i].leftCols(n);
    near(a, N, tol * (s + 1e-12), key + fmt(":block%d", (int)i), id + fmt(" block %d", (int)i));
    if (q[i]) near(Mat(J[i].col(3)), Mat(Mat::Zero(J[i].rows(), 1)), 0, key + ":fourth-column", id);
  }
  std::vector<bool> want;
  for (size_t i = 0; i < p.size(); i++) want.push_back(r.p(0.5));
  near(eval(f, p, &Js, &want), res, 0, key + ":residual-with-some-derivatives", id);
  for (size_t i = 0; i < p.size(); i++) if (want[i]) near(Js[i], J[i], 0, key + ":some-derivatives", id);
  count(key);
}
int main(int argc, char **argv) {
  vh::init(argc, argv);
  ov_core::Printer::setPrintLevel("SILENT");
  run_cases(ctx().a.thorough() ? 120000 : 4000, [&](long c, Rng &r) {
    switch (c % 4) {
    case 0: { // reprojection
      bool fish = r.p(0.5);
      double f = r.u(200, 800), sig = r.logu(0.1, 5);
      Vec cam(8);
      cam << f, f * r.u(0.9, 1.1), r.u(200, 500), r.u(150, 400), 0, 0, 0, 0;
      if (r.p(0.8)) { if (fish) cam.tail(4) << r.u(-0.05, 0.05), r.u(-0.02, 0.02), r.u(-0.01, 0.01), r.u(-0.004, 0.004); else cam.tail(4) << r.u(-0.3, 0.1), r.u(-0.05, 0.1), r.u(-2e-3, 2e-3), r.u(-2e-3, 2e-3); }
      Pose I{r.rot(), r.v3(3)}, C{r.rot(), r.v3(0.2)};
      V3 pc(r.u(-0.6, 0.6), r.u(-0.6, 0.6), 1);
      if (r.p(0.05)) pc << 0, 0, 1;
      pc *= r.logu(0.3, 30);
      V3 pf = cam_to_global(pc, I, C);
      V2 z = distort(cam, fish, V2(pc(0) / pc(2), pc(1) / pc(2))), e(r.n(2), r.n(2));
      if (r.p(0.3)) e.setZero();
      ov_init::Factor_ImageReprojCalib F(z - e, sig, fish);
      bool gated = r.p(0.1);
      if (gated) F.gate = 0;
      Params p{R2jpl(I.R), I.p, pf, R2jpl(C.R), C.p, cam};
      std::string id = fmt("fisheye=%d depth=%.2f sigma=%.2f ", fish, pc(2), sig) + str(cam);
      distinct(fmt("reproj %d lens%d gate%d zero%d depth%d", fish, cam(4) != 0, gated, e.norm() == 0, (int)std::log2(pc(2) + 1e-3)));
      Vec res = eval(F, p);
      near(res, Mat(gated ? Vec(Vec::Zero(2)) : Vec(e / sig)), 1e-6 / sig * (z.cwiseAbs().maxCoeff() + 100), "reproj:residual", id);
      if (e.norm() == 0) count("reproj:consistent");
      check_factor(F, p, {true, false, false, true, false, false}, r, "reproj", id, 1e-6, {1e-4, 1e-4 * pc(2), 1e-4 * pc(2), 1e-4, 1e-4 * pc(2), 1e-4}, [&](const Params &x) {
        // the code projects in single precision, so its own differences are too coarse: differentiate the published model
        V3 a = global_to_cam(V3(x[2]), Pose{jpl2R(V4(x[0])), x[1]}, Pose{jpl2R(V4(x[3])), x[4]});
        return Vec((gated ? 0 : 1) / sig * (distort(x[5], fish, V2(a(0) / a(2), a(1) / a(2))) - (z - e)));
      });
      break;
    }
    case 1: { // preintegration
      double g = r.p(0.9) ? 9.81 : 1.62;
      V3 grav(0, 0, g), bw = r.v3(0.05), ba = r.v3(0.2);
      ov_core::CpiV1 cpi(r.logu(1e-4, 1e-2), r.logu(1e-5, 1e-3), r.logu(1e-3, 5e-2), r.logu(1e-4, 1e-2), r.p(0.5));
      cpi.setLinearizationPoints(bw, ba, V4::Zero(), V3::Zero());
      int n = r.i(5, 60);
      double t = 0, dt = r.u(0.002, 0.01), wm = r.p(0.1) ? 0 : r.u(0, 3);
      V3 w0 = r.v3(wm), a0 = r.v3(4) + V3(0, 0, 9.8), wl = w0 + bw, al = a0 + ba;
      for (int i = 0; i < n; i++) {
        V3 wn = w0 + r.v3(wm * 0.2) + bw, an = a0 + r.v3(1) + ba;
        cpi.feed_IMU(t, t + dt, wl, al, wn, an);
        wl = wn; al = an; t += dt;
      }
      double dT = cpi.DT;
      Eigen::Matrix<double, 15, 15> P = cpi.P_meas;
      if (min_eig(P) <= 0) break;
      ov_init::Factor_ImuCPIv1 F(dT, grav, cpi.alpha_tau, cpi.beta_tau, cpi.q_k2tau, ba, bw, cpi.J_q, cpi.J_b, cpi.J_a, cpi.H_b, cpi.H_a, P);
      // a second state that agrees with the measurement, then one that does not
      M3 R1 = r.rot();
      V3 p1 = r.v3(5), v1 = r.v3(2), p2, v2;
      bool moved = r.p(0.5), biased = r.p(0.5);
      V3 dw = biased ? r.v3(1e-3) : V3::Zero(), da = biased ? r.v3(0.05) : V3::Zero();
      M3 Rm = expm(cpi.J_q * dw) * cpi.R_k2tau, R2 = Rm * R1;
      V3 be = cpi.beta_tau + cpi.J_b * dw + cpi.H_b * da, alp = cpi.alpha_tau + cpi.J_a * dw + cpi.H_a * da;
      v2 = v1 - grav * dT + R1.transpose() * be;
      p2 = p1 + v1 * dT - 0.5 * grav * dT * dT + R1.transpose() * alp;
      V3 eth = moved ? r.v3(0.02) : V3::Zero(), ev = moved ? r.v3(0.1) : V3::Zero(), ep = moved ? r.v3(0.1) : V3::Zero(), ebw = moved ? r.v3(1e-3) : V3::Zero(), eba = moved ? r.v3(1e-2) : V3::Zero();
      R2 = expm(-eth) * R2;
      Params p{R2jpl(R1), bw + dw, v1, ba + da, p1, R2jpl(R2), bw + dw + ebw, v2 + R1.transpose() * ev, ba + da + eba, p2 + R1.transpose() * ep};
      std::string id = fmt("n=%d dT=%.3f rate=%.2f moved=%d biased=%d", n, dT, wm, moved, biased);
      distinct(fmt("imu n%d w%d moved%d biased%d g%d", n / 10, (int)(wm * 2), moved, biased, g > 5));
      Vec raw(15);
      raw << eth, ebw, ev, eba, ep; // small angle: 2 vec(q) is the angle to third order
      Vec res = eval(F, p);
      double m2 = raw.dot(P.llt().solve(raw)), got = res.squaredNorm();
      if (!moved) { near(std::sqrt(got), 0, 1e-5 * (1 + std::sqrt(Vec::Ones(15).dot(P.llt().solve(Vec::Ones(15)))) * 1e-3) + 1e-9 / std::sqrt(P.diagonal().minCoeff()) + (biased ? 2e-5 : 0) / std::sqrt(P(0, 0)) * 1e-2, "imu:consistent", id); count("imu:consistent"); }
      else near(got / m2, 1, 2e-3, "imu:weight", id);
      // the factor treats the bias rotation as small: exact derivative at the linearization point, first order away from it
      double tol = 1e-5 + (biased ? 2 * (cpi.J_q * dw).norm() : 0) + (moved ? 0 : 0);
      check_factor(F, p, {true, false, false, false, false, true, false, false, false, false}, r, "imu", id, tol, {1e-3, 1e-3, 1e-2, 1e-2, 1e-2, 1e-3, 1e-3, 1e-2, 1e-2, 1e-2});
      break;
    }
    case 2: { // prior
      int nv = r.i(1, 5);
      std::vector<std::string> types;
      std::vector<bool> q;
      Params lin, p;
      Vec raw(0);
      auto app = [&](Vec &v, const Vec &a) { Vec o(v.size() + a.size()); o << v, a; v = o; };
      Vec xl(0);
      bool moved = r.p(0.6);
      std::vector<double> steps;
      for (int i = 0; i < nv; i++) {
        int k = r.i(0, 4);
        static const char *nm[] = {"quat", "quat_yaw", "vec1", "vec3", "vec8"};
        types.push_back(nm[k]);
        q.push_back(k < 2);
        steps.push_back(1e-3);
        if (k < 2) {
          M3 R = r.rot();
          V3 th = moved ? r.v3(r.p(0.2) ? 0.6 : 0.05) : V3::Zero();
          lin.push_back(R2jpl(R)); p.push_back(R2jpl(expm(-th) * R));
          V3 e = -(R.transpose() * th);
          if (th.norm() > 3) e = -R.transpose() * logm(expm(th));
          if (k == 0) app(raw, Vec(e)); else app(raw, Vec(e.tail(1)));
        } else {
          int n = k == 2 ? 1 : k == 3 ? 3 : 8;
          Vec l = r.vec(n, 3), d = moved ? r.vec(n, 0.5) : Vec(Vec::Zero(n));
          lin.push_back(l); p.push_back(l + d);
          app(raw, d);
        }
        app(xl, lin.back());
      }
      int m = raw.size();
      Mat Info = r.psd(m, r.logu(0.1, 100), 1e-2);
      if (r.p(0.3)) { Vec dg = Info.diagonal(); Info = dg.asDiagonal(); }
      bool zero = r.p(0.6);
      Mat grad = zero ? Mat(Mat::Zero(m, 1)) : Mat(r.vec(m));
      ov_init::Factor_GenericPrior F(xl, types, Info, grad);
      std::string id = fmt("prior n=%d m=%d moved=%d zero=%d ", nv, m, moved, zero);
      for (auto &t : types) id += t + " ";
      distinct(fmt("prior %s moved%d zero%d diag%d", id.substr(16).c_str(), moved, zero, Info.isDiagonal()));
      Vec res = eval(F, p), at = eval(F, lin);
      if (zero) {
        near(at, Mat(Mat::Zero(m, 1)), 1e-12, "prior:consistent", id);
        near(res.squaredNorm(), raw.dot(Info * raw), 1e-6 * (1 + raw.dot(Info * raw)), "prior:weight", id);
        count("prior:zero");
      } else {
        near(Vec(res - at).squaredNorm(), raw.dot(Info * raw), 1e-6 * (1 + raw.dot(Info * raw)), "prior:weight", id);
        // the cost has the given gradient at the linearization point
        double c0 = at.squaredNorm() / 2, c1 = res.squaredNorm() / 2;
        near(c1 - c0, 0.5 * raw.dot(Info * raw) + grad.col(0).dot(raw), 1e-6 * (1 + raw.dot(Info * raw) + at.squaredNorm()), "prior:gradient", id);
        count("prior:gradient");
      }
      check_factor(F, p, q, r, "prior", id, 1e-6, steps);
      break;
    }
    case 3: { // manifold
      ov_init::State_JPLQuatLocal l;
      M3 R = r.rot();
      Vec q = R2jpl(R), o(4), d = r.v3() * r.logu(1e-12, 1);
      int reg = r.i(0, 4);
      if (reg == 0) d.setZero();
      if (reg == 1) d = r.dir() * r.logu(1e-12, 1e-7);
      if (reg == 2) d = r.dir() * r.u(1, 3.1);
      check(l.Plus(q.data(), d.data(), o.data()), "plus-failed");
      near(o.norm(), 1, 1e-12, "plus:norm");
      double th = d.norm();
      near(M3(jpl2R(V4(o))), expm(-V3(d)) * R, 1e-7 * std::min(1.0, th * 100 + 1e-3) + 1e-9, "plus:rotation", fmt("angle %.3g", th));
      if (th < 0.3) {
        ov_type::JPLQuat v;
        v.set_value(q);
        v.update(d);
        near(v.Rot(), M3(jpl2R(V4(o))), th * th * th / 6 + 1e-12, "plus:filter-update", fmt("angle %.3g", th));
        count("plus:filter");
      }
      Vec m(3);
      // the inverse of plus, through the public interface of the manifold
      const ceres::Manifold &M = l;
      check(M.Minus(o.data(), q.data(), m.data()), "minus-failed");
      if (th < 3.1) near(m, d, 3e-8, "minus", fmt("angle %.3g", th));
      check(M.AmbientSize() == 4 && M.TangentSize() == 3, "sizes");
      double J[12], Jm[12];
      for (auto &x : J) x = NAN;
      for (auto &x : Jm) x = NAN;
      M.PlusJacobian(q.data(), J); M.MinusJacobian(q.data(), Jm);
      // factors return tangent derivatives padded with a zero column, so the plus Jacobian must select them
      Mat Jp = Eigen::Map<Eigen::Matrix<double, 4, 3, Eigen::RowMajor>>(J), Jn = Eigen::Map<Eigen::Matrix<double, 3, 4, Eigen::RowMajor>>(Jm);
      near(Jp, Mat(Mat::Identity(4, 3)), 0, "plus-jacobian");
      near(Mat(Jn * Jp), Mat(M3::Identity()), 1e-12, "minus-jacobian");
      distinct(fmt("manifold %d %d", reg, (int)std::log10(th + 1e-13)));
      count("manifold");
    }
    }
    if (c < 16) sample(fmt("case %ld kind %ld", c, c % 4));
  });
  return finish();
}
