// S04: covariance of a propagation against the numerical derivative of the propagated mean.
#include "vimu.h"
using namespace vimu;
using ov_msckf::Propagator;
using ov_msckf::StateHelper;

struct Setup {
  SO o;
  uint64_t seed;
  double base, g0;
  ov_msckf::NoiseManager nm;
  std::vector<Imu> imu;
  std::vector<double> stops; // camera times to propagate to
  Vec fejoff;                // first estimate of the inertial state relative to the estimate
  SP make() const {
    Rng r(seed);
    SO oo = o;
    SP s = make_state(oo, r);
    s->_timestamp = base;
    if (fejoff.size()) s->_imu->set_fej(boxplus(s->_imu, s->_imu->value(), fejoff));
    return s;
  }
};
static std::vector<TP> prop_vars(const SP &s) {
  std::vector<TP> x{s->_imu};
  if (s->_options.do_calib_imu_intrinsics) {
    x.push_back(s->_calib_imu_dw); x.push_back(s->_calib_imu_da);
    if (s->_options.do_calib_imu_g_sensitivity) x.push_back(s->_calib_imu_tg);
    if (s->_options.imu_model == SO::KALIBR) x.push_back(s->_calib_imu_GYROtoIMU);
    else x.push_back(s->_calib_imu_ACCtoIMU);
  }
  return x;
}
static std::vector<TP> other_vars(const SP &s) {
  std::vector<TP> x = prop_vars(s), o;
  for (auto &v : variables(s)) if (std::find(x.begin(), x.end(), v) == x.end()) o.push_back(v);
  return o;
}
static void propagate(const Setup &u, const SP &s) {
  Propagator p(u.nm, u.g0);
  for (auto &m : u.imu) p.feed_imu(m);
  for (double t : u.stops) p.propagate_and_clone(s, t);
}

static void one(long c, Rng &r) {
  Setup u;
  u.o = rand_options(r);
  u.o.max_clone_size = 30;
  u.o.num_cameras = 3;
  u.o.do_calib_camera_pose = u.o.do_calib_camera_intrinsics = true;
  u.o.do_calib_imu_intrinsics = r.p(0.75);
  u.seed = r.g();
  u.base = r.p(0.2) ? 1.4e9 : r.u(1, 50);
  u.g0 = r.p(0.8) ? 9.81 : r.u(1, 15);
  u.nm.sigma_w = r.logu(1e-5, 1e-2); u.nm.sigma_a = r.logu(1e-4, 1e-1); u.nm.sigma_wb = r.logu(1e-6, 1e-3); u.nm.sigma_ab = r.logu(1e-5, 1e-2);
  int motion = r.i(0, 2);
  SP s0 = u.make();
  Mat tg = s0->_calib_imu_tg->value();
  double off = s0->_calib_dt_CAMtoIMU->value()(0);
  Signal sig(r, motion == 0 ? 0.002 : motion == 1 ? 0.4 : 2.5, motion == 2 ? 5 : 1);
  sig.constant = r.p(0.4);
  if (motion == 0) { // slow: readings close to the biases
    Mat x = s0->_imu->value();
    Cal cc = cal_of(s0);
    sig.w0 += x.block(10, 0, 3, 1) + cc.Tg * cc.Ra * cc.Da * (sig.a0 - V3(x.block(13, 0, 3, 1)));
  }
  double rate = r.logu(motion == 2 ? 100 : 50, 1000);
  bool single = r.p(0.4); // exactly one step between two readings
  int N = single ? 1 : r.i(2, 25);
  double t = u.base + off;
  std::vector<double> rt;
  for (int k = 0; k <= N; k++) {
    u.imu.push_back(sig.at(t, u.base));
    rt.push_back(t);
    t += r.u(0.8, 1.2) / rate;
  }
  bool onread = single || r.p(0.3);
  double tend = onread ? rt.back() : rt[N - 1] + r.u(0.2, 0.8) * (rt[N] - rt[N - 1]);
  u.stops = {tend - off};
  int fejmode = r.i(0, 3); // 0,1 first estimate equals the estimate, 2,3 it does not
  if (fejmode >= 2) { u.fejoff = r.vec(15, 0.01); if (r.p(0.5)) u.fejoff.tail(6).setZero(); }
  bool plain = fejmode < 2 || !u.o.do_fej; // derivative at the estimate itself
  std::string d = optname(u.o) + fmt(" motion%d rate%.0f readings %d base %.1f fejmode %d constant %d", motion, rate, N, u.base, fejmode, sig.constant);
  // run 1: cross covariances carry the transition
  SP s1 = u.make();
  std::vector<TP> x1 = prop_vars(s1), c1 = other_vars(s1);
  int n = total(x1), m = total(c1);
  Mat P0 = Mat::Identity(n + m, n + m);
  for (int k = 0; k < n; k++) P0(k, n + k) = P0(n + k, k) = 0.5;
  std::vector<TP> xc = x1;
  xc.insert(xc.end(), c1.begin(), c1.end());
  StateHelper::set_initial_covariance(s1, P0, xc);
  Mat imu0 = s1->_imu->value(), imuf = s1->_imu->fej();
  propagate(u, s1);
  Mat P1 = cov_of(s1, xc);
  Mat Phi = 2 * P1.block(0, n, n, n);
  near(P1.block(0, n + n, n, m - n), Mat::Zero(n, m - n), 1e-12, "cross:extra", d);
  near(P1.block(n, n, m, m), Mat::Identity(m, m), 0, "others-touched", d);
  Mat imu1 = s1->_imu->value();
  // run 2: no prior uncertainty, only the injected noise
  SP s2 = u.make();
  std::vector<TP> x2 = prop_vars(s2), c2 = other_vars(s2);
  std::vector<TP> xc2 = x2;
  xc2.insert(xc2.end(), c2.begin(), c2.end());
  StateHelper::set_initial_covariance(s2, Mat::Zero(n + m, n + m), xc2);
  propagate(u, s2);
  Mat Pq = cov_of(s2, xc2), Q = Pq.block(0, 0, n, n);
  near(Pq.rightCols(m), Mat::Zero(n + m, m), 0, "noise:others", d);
  near(Q.bottomRows(n - 15), Mat::Zero(n - 15, n), 0, "noise:intrinsics", d);
  check_cov(Q.block(0, 0, 15, 15), "noise", d);
  near(P1.block(0, 0, n, n), Phi * Phi.transpose() + Q, 1e-9 * (1 + (Phi * Phi.transpose()).cwiseAbs().maxCoeff()), "inertial-block", d);
  // intrinsics keep their value: rows below the inertial state are the identity
  near(Phi.bottomRows(n - 15), Mat(Mat::Identity(n, n).bottomRows(n - 15)), 1e-12, "intrinsics-rows", d);
  // the state transition against the derivative of the propagated mean
  double T = tend - rt[0];
  Cal cal = cal_of(s0);
  double amax = 0, wmax = 0, beta = 0, dtmax = 0, wmin = 1e9, da = 0;
  std::vector<WA> wa;
  for (auto &q : select(u.imu, rt[0], tend)) wa.push_back(correct(cal, q));
  for (size_t k = 0; k + 1 < wa.size(); k++) {
    double dt = wa[k + 1].t - wa[k].t, wm = (0.5 * (wa[k].w + wa[k + 1].w)).norm();
    amax = std::max(amax, std::max(wa[k].a.norm(), wa[k + 1].a.norm()));
    wmax = std::max(wmax, std::max(wa[k].w.norm(), wa[k + 1].w.norm()));
    wmin = std::min(wmin, wm);
    beta = std::max(beta, (wa[k + 1].w - wa[k].w).norm() * dt);
    da = std::max(da, (wa[k + 1].a - wa[k].a).norm());
    dtmax = std::max(dtmax, dt);
  }
  bool smallw = wmin < 0.0088;
  double th = wmax * dtmax;
  auto method = u.o.integration_method;
  const char *mn = method == SO::RK4 ? "rk4" : method == SO::ANALYTICAL ? "analytical" : "discrete";
  double rel = 3e-7, dwmax = 0;
  for (size_t k = 0; k + 1 < wa.size(); k++) dwmax = std::max(dwmax, (wa[k + 1].w - wa[k].w).norm());
  if (method != SO::DISCRETE && smallw) rel = std::max(rel, 1.2 * std::max(th, 1e-6));
  if (method == SO::RK4) rel = std::max(rel, 1.0 * (th * th + beta + 0.3 * th * da / std::max(amax, 1e-3)));
  if (method == SO::RK4) rel += 1.0 * da / std::max(amax, 1e-3) * 1.0;
  // size each block can have
  double mr[3] = {1, T, 1}; (void)mr;
  Mat mag = Mat::Zero(15, n);
  double A = amax, tgn = std::max(1e-3, tg.norm());
  auto B = [&](int i, int j, int cols, double v) { mag.block(i, j, 3, cols).setConstant(v); };
  B(0, 0, 3, 1); B(3, 0, 3, A * T * T); B(6, 0, 3, A * T); B(3, 3, 3, 1); B(3, 6, 3, T); B(6, 6, 3, 1); B(9, 9, 3, 1); B(12, 12, 3, 1);
  auto rot = [&](int j, int cols, double sc) { B(0, j, cols, T * sc); B(3, j, cols, A * T * T * T / 6 * sc); B(6, j, cols, A * T * T / 2 * sc); };
  rot(9, 3, 1);
  rot(12, 3, tgn);
  mag.block(3, 12, 3, 3).array() += T * T / 2; mag.block(6, 12, 3, 3).array() += T;
  if (n > 15) {
    rot(15, 6, wmax);
    rot(21, 6, tgn * A);
    mag.block(3, 21, 3, 6).array() += A * T * T / 2; mag.block(6, 21, 3, 6).array() += A * T;
    int at = 27;
    if (u.o.do_calib_imu_g_sensitivity) { rot(27, 9, A); at = 36; }
    if (u.o.imu_model == SO::KALIBR) rot(at, 3, wmax);
    else { rot(at, 3, tgn * A); mag.block(3, at, 3, 3).array() += A * T * T / 2; mag.block(6, at, 3, 3).array() += A * T; }
  }
  static const char *RN[5] = {"th", "p", "v", "bg", "ba"};
  auto colname = [&](int j) -> std::string {
    if (j < 15) return RN[j / 3];
    if (j < 21) return "dw";
    if (j < 27) return "da";
    if (u.o.do_calib_imu_g_sensitivity && j < 36) return "tg";
    return "rot";
  };
  Mat ref;
  if (plain) {
    auto f = [&](const Vec &dx) -> Vec {
      SP s = u.make();
      int at = 0;
      for (auto &v : prop_vars(s)) {
        Mat nv = boxplus(v, v->value(), dx.segment(at, v->size()));
        if (u.fejoff.size() && v == TP(s->_imu)) v->set_value(nv);
        else set_both(v, nv);
        at += v->size();
      }
      propagate(u, s);
      return boxminus(s->_imu, s->_imu->value(), imu1);
    };
    // the analytical mean loses digits (and below half a degree per second is an approximation), which a numerical derivative amplifies:
    // its covariance is judged against the exact mean, and S03 judges that the mean is that one
    auto h = [&](const Vec &dx) -> Vec {
      SP s = u.make();
      int at = 0;
      for (auto &v : prop_vars(s)) { v->set_value(boxplus(v, v->value(), dx.segment(at, v->size()))); at += v->size(); }
      Cal c = cal_of(s);
      Nav nv = nav_of(s->_imu->value());
      auto sel = select(u.imu, rt[0], tend);
      for (size_t k = 0; k + 1 < sel.size(); k++) nv = step_exact_mean(nv, correct(c, sel[k]), correct(c, sel[k + 1]), V3(0, 0, u.g0));
      Vec o(15);
      o << logm(nv.R * jpl2R(V4(imu1.block(0, 0, 4, 1))).transpose()) * -1.0, nv.p - V3(imu1.block(4, 0, 3, 1)), nv.v - V3(imu1.block(7, 0, 3, 1)), s->_imu->value().block(10, 0, 6, 1) - imu1.block(10, 0, 6, 1);
      return o;
    };
    ref = method == SO::ANALYTICAL ? numjac4(h, n, 1e-3) : numjac4(f, n, 1e-3);
    double absn = 3e-9 * (1 + imu1.cwiseAbs().maxCoeff());
    for (int i = 0; i < 15; i++)
      for (int j = 0; j < n; j++) {
        double e = std::abs(Phi(i, j) - ref(i, j)), tol = absn + rel * std::max(mag(i, j), 0.0);
        if (method != SO::DISCRETE && !smallw) tol += wa.size() * A * (i < 3 ? 0 : i < 6 ? 4e-16 / std::pow(wmin, 3) + 4e-16 / (wmin * wmin) * T : 4e-16 / (wmin * wmin));
        if (method == SO::RK4 && j >= 15) tol += 0.5 * dwmax * (i < 3 ? T : i < 6 ? A * T * T * T / 6 : A * T * T / 2);
        count("checks");
        maxv(std::string("of-tolerance:") + mn + (smallw ? ":slow" : ""), e / tol);
        if (!(e <= tol)) { fail(fmt("transition:%s:%s:%s", mn, RN[i / 3], colname(j).c_str()), fmt("(%d,%d) got %.9g expected %.9g tolerance %.3g ", i, j, Phi(i, j), ref(i, j), tol) + d); j = n; i = 15; }
      }
    count(fmt("transition:%s", mn));
  }
  // closed form of the pose and velocity columns at the first estimate
  {
    Mat lin = u.o.do_fej ? imuf : imu0;
    Nav a = nav_of(lin), b = nav_of(imu1);
    V3 g(0, 0, u.g0);
    Mat C = Mat::Zero(9, 9);
    C.block(0, 0, 3, 3) = b.R * a.R.transpose();
    C.block(3, 0, 3, 3) = -skew(b.p - a.p - a.v * T + 0.5 * g * T * T) * a.R.transpose();
    C.block(6, 0, 3, 3) = -skew(b.v - a.v + g * T) * a.R.transpose();
    C.block(3, 3, 3, 3).setIdentity(); C.block(3, 6, 3, 3) = T * M3::Identity(); C.block(6, 6, 3, 3).setIdentity();
    near(Phi.block(0, 0, 9, 9), C, 1e-8 * (1 + imu1.cwiseAbs().maxCoeff()), "transition:first-estimate", d);
    near(Phi.block(9, 0, 6, n), Mat(Mat::Identity(n, n).block(9, 0, 6, n)), 1e-12, "transition:bias-rows", d);
    if (!plain) count("transition:fej-differs");
  }
  // one step: the noise enters like a bias error held over the step
  if (single) {
    Mat G = Mat::Zero(15, 12);
    Mat F = plain ? ref.leftCols(15) : Mat(Phi.block(0, 0, 15, 15));
    G.block(0, 0, 9, 3) = F.block(0, 9, 9, 3);
    G.block(0, 3, 9, 3) = F.block(0, 12, 9, 3);
    Mat E = std::pow(u.nm.sigma_w, 2) / T * G.leftCols(3) * G.leftCols(3).transpose() + std::pow(u.nm.sigma_a, 2) / T * G.middleCols(3, 3) * G.middleCols(3, 3).transpose();
    for (int k = 0; k < 3; k++) { E(9 + k, 9 + k) += std::pow(u.nm.sigma_wb, 2) * T; E(12 + k, 12 + k) += std::pow(u.nm.sigma_ab, 2) * T; }
    // scale every entry by the size its row and column can have
    Vec sc(15);
    double sw = u.nm.sigma_w / std::sqrt(T), sa = u.nm.sigma_a / std::sqrt(T);
    for (int k = 0; k < 3; k++) {
      sc(k) = sw * T + sa * tgn * T; sc(3 + k) = sa * T * T / 2 + sw * A * T * T * T / 6; sc(6 + k) = sa * T + sw * A * T * T / 2;
      sc(9 + k) = u.nm.sigma_wb * std::sqrt(T); sc(12 + k) = u.nm.sigma_ab * std::sqrt(T);
    }
    Vec is = sc.cwiseInverse();
    double tq = 3 * rel + 1e-5;
    // numerical derivatives of tiny blocks carry an absolute error
    double absn = 6e-9 * (1 + imu1.cwiseAbs().maxCoeff());
    Vec slack(15);
    for (int k = 0; k < 15; k++) slack(k) = k < 9 ? (sw + sa) * absn / sc(k) : 0;
    double sl = plain ? slack.maxCoeff() : 0;
    Mat got = is.asDiagonal() * Q.block(0, 0, 15, 15) * is.asDiagonal(), want = is.asDiagonal() * E * is.asDiagonal();
    if (sl < 0.3) { near(got, want, tq + 4 * sl, fmt("noise:%s", mn), d + fmt(" sigmas %.3g %.3g %.3g %.3g T %.4g", u.nm.sigma_w, u.nm.sigma_a, u.nm.sigma_wb, u.nm.sigma_ab, T)); count("noise"); maxv("noise:slack", sl); }
    near(Q.block(9, 9, 6, 6), E.block(9, 9, 6, 6), 1e-9 * E.block(9, 9, 6, 6).cwiseAbs().maxCoeff(), "noise:bias", d);
    // all four densities scaled together scale the injected noise
    Setup u3 = u;
    double k2 = r.u(0.3, 3);
    u3.nm.sigma_w *= k2; u3.nm.sigma_a *= k2; u3.nm.sigma_wb *= k2; u3.nm.sigma_ab *= k2;
    SP s3 = u3.make();
    std::vector<TP> x3 = prop_vars(s3), o3 = other_vars(s3);
    x3.insert(x3.end(), o3.begin(), o3.end());
    StateHelper::set_initial_covariance(s3, Mat::Zero(n + m, n + m), x3);
    propagate(u3, s3);
    nearrel(cov_of(s3, prop_vars(s3)), k2 * k2 * Q, 1e-9, "noise:scaling", d);
  }
  // random uncertainty: one propagation, the same in two or more parts cut at readings, and the new clone
  {
    SP s = u.make();
    std::vector<TP> x = prop_vars(s), oth = other_vars(s), v = x;
    v.insert(v.end(), oth.begin(), oth.end());
    Rng r2(r.g()), r3 = r2;
    Mat P = rand_cov(s, v, r2);
    propagate(u, s);
    Mat got = cov_of(s, v);
    Mat want = P;
    want.block(0, 0, n, n) = Phi * P.block(0, 0, n, n) * Phi.transpose() + Q;
    want.block(0, n, n, m) = Phi * P.block(0, n, n, m);
    want.block(n, 0, m, n) = want.block(0, n, n, m).transpose();
    nearrel(got, want, 1e-9, "random:mapped", d);
    near(got.block(n, n, m, m), P.block(n, n, m, m), 0, "random:others", d);
    // the clone is the new pose, seen at a camera time that is uncertain
    TP cl = s->_clones_IMU.at(u.stops.back());
    std::vector<TP> vc = v;
    vc.push_back(cl);
    Mat Pc = cov_of(s, vc);
    int tot = n + m;
    Mat J = Mat::Zero(6, tot);
    J.leftCols(6).setIdentity();
    if (u.o.do_calib_camera_timeoffset) {
      int at = 0;
      for (auto &q : v) { if (q == TP(s->_calib_dt_CAMtoIMU)) break; at += q->size(); }
      J.block(0, at, 3, 1) = wa.back().w;
      J.block(3, at, 3, 1) = imu1.block(7, 0, 3, 1);
    }
    nearrel(Pc.block(tot, 0, 6, tot), J * got, 1e-8, "clone:cross", d);
    nearrel(Pc.block(tot, tot, 6, 6), J * got * J.transpose(), 1e-8, "clone:block", d);
    if (!single) {
      Setup u4 = u;
      u4.stops.clear();
      std::set<int> cuts;
      for (int q = 0, k = r.i(1, 4); q < k; q++) cuts.insert(r.i(1, N - 1));
      // a cut is a camera time; it must fall on a reading exactly in the inertial clock
      for (int q : cuts) if ((rt[q] - off) + off == rt[q] && rt[q] < tend) u4.stops.push_back(rt[q] - off);
      if (!u4.stops.empty()) {
        u4.stops.push_back(u.stops[0]);
        SP s4 = u4.make();
        std::vector<TP> x4 = prop_vars(s4), o4 = other_vars(s4);
        x4.insert(x4.end(), o4.begin(), o4.end());
        rand_cov(s4, x4, r3);
        propagate(u4, s4);
        Mat split = cov_of(s4, x4);
        Vec dg = got.diagonal().cwiseSqrt().cwiseInverse();
        near(dg.asDiagonal() * split * dg.asDiagonal(), dg.asDiagonal() * got * dg.asDiagonal(), 1e-7, "split", d + fmt(" %zu parts", u4.stops.size()));
        count("splits");
        // noise only grows
      }
    }
    if (u.o.do_fej == false || plain) count("random");
  }
  distinct(fmt("%s:%d:%d:%d:%d:%d:%d:%d:%d", mn, u.o.imu_model, u.o.do_calib_imu_intrinsics, u.o.do_calib_imu_g_sensitivity, motion, fejmode, u.o.do_fej, std::min(N, 6), smallw));
  if (c < 3) sample(d);
}
int main(int argc, char **argv) {
  init(argc, argv);
  ov_core::Printer::setPrintLevel("SILENT");
  run_cases(ctx().a.thorough() ? 30000 : 1200, one);
  return finish();
}
