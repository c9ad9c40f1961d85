// S14: preintegration against direct integration of the same readings, numerical derivatives of the real output, and an independent noise propagation.
#include "vh.h"
#include "cpi/CpiV1.h"
#include "cpi/CpiV2.h"
using namespace vh;
typedef Eigen::Vector4d V4;
struct Rd { double t; V3 w, a; };
struct Prob { std::vector<Rd> r; V3 bw, ba, g; V4 q; double sw, swb, sa, sab; bool avg; int model; bool analytic; };
struct Out { double DT; V3 al, be; M3 R; V4 q; M3 Jq, Ja, Jb, Ha, Hb, Oa, Ob; Mat P; };
static Out run(const Prob &p) {
  std::shared_ptr<ov_core::CpiBase> c;
  std::shared_ptr<ov_core::CpiV2> c2;
  if (p.model == 1) c = std::make_shared<ov_core::CpiV1>(p.sw, p.swb, p.sa, p.sab, p.avg);
  else { c2 = std::make_shared<ov_core::CpiV2>(p.sw, p.swb, p.sa, p.sab, p.avg); c2->state_transition_jacobians = !p.analytic; c = c2; }
  c->setLinearizationPoints(p.bw, p.ba, p.q, p.g);
  for (size_t i = 0; i + 1 < p.r.size(); i++) c->feed_IMU(p.r[i].t, p.r[i + 1].t, p.r[i].w, p.r[i].a, p.r[i + 1].w, p.r[i + 1].a);
  Out o{c->DT, c->alpha_tau, c->beta_tau, c->R_k2tau, c->q_k2tau, c->J_q, c->J_a, c->J_b, c->H_a, c->H_b, M3::Zero(), M3::Zero(), c->P_meas};
  if (c2) { o.Oa = c2->O_a; o.Ob = c2->O_b; }
  return o;
}
static const double GX[5] = {0.04691007703066800, 0.23076534494715845, 0.5, 0.76923465505284155, 0.95308992296933200};
static const double GW[5] = {0.11846344252809454, 0.23931433524968324, 0.28444444444444444, 0.23931433524968324, 0.11846344252809454};
struct Ref { double DT = 0; V3 al = V3::Zero(), be = V3::Zero(); M3 R = M3::Identity(); Mat P = Mat::Zero(15, 15); };
/// direct integration; the covariance by fine steps of the linearized error model (orientation, gyro bias, velocity, accel bias, position)
static Ref refer(const Prob &p, bool cov) {
  Ref o;
  M3 RGk = jpl2R(p.q);
  Mat Q = Mat::Zero(12, 12);
  Q.diagonal() << V3::Constant(p.sw * p.sw), V3::Constant(p.swb * p.swb), V3::Constant(p.sa * p.sa), V3::Constant(p.sab * p.sab);
  for (size_t i = 0; i + 1 < p.r.size(); i++) {
    double dt = p.r[i + 1].t - p.r[i].t;
    o.DT += dt;
    if (dt == 0) continue;
    V3 w = p.r[i].w - p.bw;
    if (p.avg) w = 0.5 * (p.r[i].w + p.r[i + 1].w) - p.bw;
    M3 R1 = expm(-w * dt) * o.R;
    V3 a = p.r[i].a - p.ba;
    if (p.avg) a = 0.5 * (p.r[i].a + p.r[i + 1].a) - p.ba;
    if (p.model == 2) a -= (p.avg ? M3(0.5 * (o.R + R1)) : o.R) * RGk * p.g;
    V3 b = V3::Zero(), al = V3::Zero();
    const int N = 6;
    for (int k = 0; k < N; k++)
      for (int j = 0; j < 5; j++) {
        double s = (k + GX[j]) * dt / N, ww = GW[j] * dt / N;
        V3 f = (expm(-w * s) * o.R).transpose() * a;
        b += ww * f;
        al += ww * (dt - s) * f;
      }
    if (cov) {
      // error: th (R = (I-[th]) R^), bw, v, ba, p and, for model 2, the orientation at the interval start (the gravity it subtracts follows it)
      int n = p.model == 2 ? 18 : 15;
      Mat P = Mat::Zero(n, n);
      P.topLeftCorner(15, 15) = o.P;
      if (n == 18) {
        P.block(15, 0, 3, 15) = o.P.topRows(3);
        P.block(0, 15, 15, 3) = o.P.leftCols(3);
        P.block(15, 15, 3, 3) = o.P.topLeftCorner(3, 3);
      }
      const int M = 12;
      double h = dt / M;
      auto F = [&](double s) {
        Mat A = Mat::Zero(n, n);
        M3 Rt = (expm(-w * s) * o.R).transpose();
        A.block(0, 0, 3, 3) = -skew(w);
        A.block(0, 3, 3, 3) = -M3::Identity();
        A.block(6, 0, 3, 3) = -Rt * skew(a);
        A.block(6, 9, 3, 3) = -Rt;
        A.block(12, 6, 3, 3) = M3::Identity();
        if (n == 18) A.block(6, 15, 3, 3) = -Rt * skew(o.R * RGk * p.g);
        return A;
      };
      auto D = [&](double s, const Mat &X) {
        Mat A = F(s), G = Mat::Zero(n, 12);
        M3 Rt = (expm(-w * s) * o.R).transpose();
        G.block(0, 0, 3, 3) = -M3::Identity();
        G.block(3, 3, 3, 3) = M3::Identity();
        G.block(6, 6, 3, 3) = -Rt;
        G.block(9, 9, 3, 3) = M3::Identity();
        return Mat(A * X + X * A.transpose() + G * Q * G.transpose());
      };
      for (int k = 0; k < M; k++) {
        double s = k * h;
        Mat k1 = D(s, P), k2 = D(s + h / 2, P + h / 2 * k1), k3 = D(s + h / 2, P + h / 2 * k2), k4 = D(s + h, P + h * k3);
        P += h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
      }
      o.P = P.topLeftCorner(15, 15);
    }
    o.al += o.be * dt + al;
    o.be += b;
    o.R = R1;
  }
  return o;
}
/// covariance compared after scaling to unit variances
static void nearcov(const Mat &P, const Mat &E, double tol, const std::string &key, const std::string &d) {
  Vec s = E.diagonal().cwiseMax(1e-300).cwiseSqrt().cwiseInverse();
  near(Mat(s.asDiagonal() * P * s.asDiagonal()), Mat(s.asDiagonal() * E * s.asDiagonal()), tol, key, d);
}
int main(int argc, char **argv) {
  vh::init(argc, argv);
  run_cases(ctx().a.thorough() ? 60000 : 2400, [&](long c, Rng &r) {
    Prob p;
    p.model = r.i(1, 2);
    p.avg = r.p(0.5);
    p.analytic = r.p(0.4);
    p.sw = r.logu(1e-5, 1e-2); p.swb = p.sw * r.logu(1e-3, 1); p.sa = p.sw * r.logu(3, 50); p.sab = p.sa * r.logu(1e-3, 1); // ratios of physical sensors
    p.bw = r.v3(0.05); p.ba = r.v3(0.2);
    p.q = r.quat();
    p.g << 0, 0, r.p(0.9) ? 9.81 : 0;
    int n = r.p(0.25) ? 1 : r.i(2, 40), wreg = r.i(0, 4), same = r.i(0, 3);
    double t = r.u(0, 100), dtm = r.logu(0.001, n < 5 ? 0.06 : 0.01);
    // rates: zero after bias, below the small-rate threshold, just around it, normal, fast
    double wmag = wreg == 0 ? 0 : wreg == 1 ? r.logu(1e-6, 8e-3) : wreg == 2 ? 0.008726646 * r.u(0.9, 1.1) : wreg == 3 ? r.logu(0.01, 1) : r.u(1, 8);
    V3 wd = r.dir(), a0 = r.v3(5);
    if (r.p(0.1)) wd = V3::Unit(r.i(0, 2)); // rotation about one axis only
    bool axis = r.p(0.1);
    if (axis) a0 = V3::Unit(r.i(0, 2)) * r.u(-9, 9);
    for (int i = 0; i <= n; i++) {
      Rd d;
      d.t = t;
      d.w = p.bw + wmag * (same ? expm(r.v3(0.2)) * wd : wd);
      d.a = p.ba + a0 + (same ? r.v3(1.0) : V3::Zero());
      p.r.push_back(d);
      t += r.p(0.03) && n > 3 ? 0 : dtm * r.u(0.3, 1.7);
    }
    double T = p.r.back().t - p.r.front().t;
    if (T == 0) { p.r.back().t += dtm; T = p.r.back().t - p.r.front().t; }
    double maxdt = 0, maxw = 0, maxa = 0, suma = 0;
    for (size_t i = 0; i + 1 < p.r.size(); i++) {
      double dt = p.r[i + 1].t - p.r[i].t;
      maxdt = std::max(maxdt, dt); maxw = std::max(maxw, (p.r[i].w - p.bw).norm()); maxa = std::max(maxa, (p.r[i].a - p.ba).norm() + p.g.norm());
    }
    (void)suma;
    std::string id = fmt("V%d avg%d an%d n%d w-regime%d T=%.4g maxdt=%.3g maxw=%.3g", p.model, p.avg, p.analytic, n, wreg, T, maxdt, maxw), mk = fmt(":V%d", p.model);
    distinct(fmt("V%d avg%d an%d w%d n%d same%d g%d axis%d", p.model, p.avg, p.analytic, wreg, n > 1 ? (n > 10 ? 2 : 1) : 0, same == 0, p.g(2) > 0, axis));
    count(fmt("regime:%d", wreg)); count(fmt("model:%d%s%s", p.model, p.avg ? ":avg" : "", p.analytic ? ":closed" : ""));
    if (c < 24) sample(id);
    Out o = run(p);
    bool cov = c % 3 == 0;
    Ref e = refer(p, cov);
    // ---- means. The small-rate branch truncates after second order.
    double trunc = n * std::pow(std::min(maxw, 0.00873) * maxdt, 3);
    double tr = 1e-11 * (1 + n) + trunc;
    near(o.DT, T, 1e-9, "DT" + mk, id);
    near(o.R, e.R, tr, "rotation" + mk, id);
    near(M3(jpl2R(o.q)), o.R, 1e-9 + trunc * 3, "quaternion" + mk, id);
    near(o.q.norm(), 1, 1e-9, "quaternion-norm" + mk, id);
    near(o.be, e.be, (tr * 4 + 3e-10) * (maxa * T + 1e-3), "beta" + mk, id);
    near(o.al, e.al, (tr * 4 + 3e-10) * (maxa * T * T + 1e-3) + n * 6e-12 * maxa, "alpha" + mk, id);
    // ---- derivatives of the real output with respect to the linearization points
    {
      double h = 1e-3;
      M3 R0 = e.R;
      auto outv = [&](const Prob &pp) { Ref x = refer(pp, false); Vec v(9); v << logm(x.R * R0.transpose()), x.be, x.al; return v; };
      Mat Jw = numjac4([&](const Vec &d) { Prob q = p; q.bw += d; return outv(q); }, 3, h);
      Mat Jba = numjac4([&](const Vec &d) { Prob q = p; q.ba += d; return outv(q); }, 3, 1e-2);
      // the closed forms divide by powers of the rate, and the run-time integrated ones take fourth order steps
      double rk = p.model == 2 && !p.analytic ? 2 * std::pow(maxw * maxdt, 4) : 0;
      double sw_ = std::min(maxw, 0.01) * maxdt, st = 3 * sw_ * sw_; // terms the small-rate branch drops
      double grav = p.model == 2 && p.avg ? 1.2 * maxdt / T : 0;                                // gravity is averaged in the mean but linearized at the interval start
      double sT = std::max(maxa * T * T, 1e-6);
      near(o.Jq, Mat(Jw.topRows(3)), (2e-6 + rk + st) * T + 1e-9, "J_q" + mk, id);
      near(o.Jb, Mat(Jw.middleRows(3, 3)), (1e-5 + rk + st + grav) * sT + 3e-8, "J_b" + mk, id);
      near(o.Ja, Mat(Jw.bottomRows(3)), (1e-5 + rk + st + grav) * sT * T + 3e-8 + (wreg == 2 ? 3e-9 * maxa * std::sqrt(n) : 0), "J_a" + mk, id);
      near(o.Hb, Mat(Jba.middleRows(3, 3)), (1e-8 + rk) * T + 1e-10, "H_b" + mk, id);
      near(o.Ha, Mat(Jba.bottomRows(3)), (1e-8 + rk) * T * T + 1e-10, "H_a" + mk, id);
      near(Mat(Jba.topRows(3)), Mat(Mat::Zero(3, 3)), 1e-12, "rotation-and-accel-bias" + mk, id);
      if (p.model == 2) {
        Mat Jo = numjac4([&](const Vec &d) { Prob q = p; q.q = R2jpl(expm(-V3(d)) * jpl2R(p.q)); return outv(q); }, 3, 1e-3);
        near(o.Ob, Mat(Jo.middleRows(3, 3)), (1e-7 + rk + (p.avg ? maxw * maxdt : 0)) * p.g.norm() * T + 1e-9, "O_b" + mk, id);
        near(o.Oa, Mat(Jo.bottomRows(3)), (1e-7 + rk + (p.avg ? maxw * maxdt : 0)) * p.g.norm() * T * T + 1e-9, "O_a" + mk, id);
        count("orientation-jacobians");
      }
    }
    // ---- covariance: the code takes one fourth order step per reading, so terms of fifth order in its length are missing
    double cvt = 2e-5 + 5.0 * std::pow(maxdt / T, 4) + 3 * std::pow(maxw * maxdt, 4) + (p.model == 2 && p.avg ? 3e-2 * maxw * maxdt : 0);
    check_cov(o.P, "P_meas" + mk, id);
    if (cov) {
      // fourth order steps of the code under test; with averaging model 2 uses the averaged gravity only in the mean
      nearcov(o.P, e.P, cvt, "covariance" + mk, id);
      count("covariances");
      Prob s = p;
      double k = r.u(0.3, 4);
      s.sw *= k; s.swb *= k; s.sa *= k; s.sab *= k;
      nearcov(run(s).P, Mat(k * k * o.P), 1e-9, "covariance-scaling" + mk, id);
      int which = r.i(0, 3); // one density at a time: the covariance is linear in each
      Prob z = p, y = p;
      double *zz[4] = {&z.sw, &z.swb, &z.sa, &z.sab}, *yy[4] = {&y.sw, &y.swb, &y.sa, &y.sab};
      for (int i = 0; i < 4; i++) { if (i == which) *yy[i] = 0; else *zz[i] = 0; }
      Mat Pz = run(z).P, Py = run(y).P;
      nearcov(Pz + Py, o.P, 1e-9, "covariance-superposition" + mk, id);
      if (which == 2) near(Mat(Pz.block(0, 0, 6, 15)), Mat(Mat::Zero(6, 15)), 0, "accelerometer-noise-does-not-rotate" + mk, id);
      // variance never shrinks as more readings are added
      if (n > 2) {
        Prob f = p;
        f.r.resize(2 + r.i(0, n - 2));
        Mat Pf = run(f).P;
        for (int b = 0; b < 15; b += 3) check(o.P.block(b, b, 3, 3).trace() >= Pf.block(b, b, 3, 3).trace() * (1 - 1e-9), "covariance-monotone" + mk, id);
      }
    }
    // ---- splitting: only the constant reading model is independent of where an interval is cut
    {
      Prob s = p;
      s.r.clear();
      bool split = false;
      for (size_t i = 0; i < p.r.size(); i++) {
        s.r.push_back(p.r[i]);
        if (p.avg || i + 1 == p.r.size() || !r.p(0.5)) continue;
        Rd d = p.r[i];
        d.t += r.u(0.1, 0.9) * (p.r[i + 1].t - p.r[i].t);
        s.r.push_back(d);
        split = true;
      }
      if (split && (p.model == 1 || p.g.norm() == 0)) {
        Out q = run(s);
        count("splits");
        near(q.R, o.R, 1e-9 + 2 * trunc, "split:rotation" + mk, id);
        near(q.be, o.be, 1e-8 * (maxa * T + 1e-3) + trunc * maxa * T, "split:beta" + mk, id);
        near(q.al, o.al, 1e-8 * (maxa * T * T + 1e-3) + trunc * maxa * T * T + n * 1.2e-11 * maxa, "split:alpha" + mk, id);
        if (cvt < 0.1) nearcov(q.P, o.P, 2 * cvt, "split:covariance" + mk, id);
        near(q.DT, o.DT, 1e-9, "split:DT" + mk, id);
      }
      // zero length intervals change nothing
      Prob z = p;
      z.r.insert(z.r.begin() + r.i(0, n), z.r[0]);
      size_t at = 0;
      (void)at;
      Prob y = p;
      int k = r.i(0, n);
      y.r.insert(y.r.begin() + k, y.r[k]);
      Out q = run(y);
      near(q.be, o.be, 0, "duplicate-reading" + mk, id);
      near(q.al, o.al, 0, "duplicate-reading" + mk, id);
      near(q.P, o.P, 0, "duplicate-reading-covariance" + mk, id);
    }
    Out again = run(p);
    near(again.P, o.P, 0, "repeatable" + mk, id);
    near(again.al, o.al, 0, "repeatable" + mk, id);
  });
  return finish();
}
