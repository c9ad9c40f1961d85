// S05: fast prediction of the inertial state between filter updates.
#include "vimu.h"
using namespace vimu;
using ov_msckf::Propagator;
using ov_msckf::StateHelper;
typedef Eigen::Matrix<double, 13, 1> S13;
typedef Eigen::Matrix<double, 12, 12> C12;

static Vec pack(const Nav &n, const Cal &c, const M3 &R0, const V3 &p0, const V3 &v0) {
  Vec o(15);
  o << -logm(n.R * R0.transpose()), n.p - p0, n.v - v0, c.bg, c.ba;
  return o;
}
struct Pred { Nav n; Mat P; V3 w; double lastdt, bv, bp, bq; int steps; };
/// one pass from the filter state through the readings
static Pred predict(const Cal &cal, const Nav &start, const Mat &P0, const std::vector<Imu> &sel, const V3 &g, const ov_msckf::NoiseManager &nm) {
  Pred o{start, P0, V3::Zero(), 0, 1e-9, 1e-9, 1e-9, (int)sel.size() - 1};
  for (size_t k = 0; k + 1 < sel.size(); k++) {
    WA x = correct(cal, sel[k]), y = correct(cal, sel[k + 1]);
    double dt = y.t - x.t;
    Nav b = o.n, e = step_discrete(b, x, y, g);
    auto f = [&](const Vec &d) -> Vec {
      Nav n{expm(-d.head(3)) * b.R, b.p + d.segment(3, 3), b.v + d.segment(6, 3)};
      Cal c = cal;
      c.bg += d.segment(9, 3); c.ba += d.segment(12, 3);
      return pack(step_discrete(n, correct(c, sel[k]), correct(c, sel[k + 1]), g), c, e.R, e.p, e.v);
    };
    Mat F = numjac(f, 15, 1e-5);
    Mat Gw = F.middleCols(9, 3), Ga = F.middleCols(12, 3);
    Gw.bottomRows(6).setZero(); Ga.bottomRows(6).setZero();
    o.P = (F * o.P * F.transpose() + nm.sigma_w * nm.sigma_w / dt * Gw * Gw.transpose() + nm.sigma_a * nm.sigma_a / dt * Ga * Ga.transpose()).eval();
    for (int q = 0; q < 3; q++) { o.P(9 + q, 9 + q) += nm.sigma_wb * nm.sigma_wb * dt; o.P(12 + q, 12 + q) += nm.sigma_ab * nm.sigma_ab * dt; }
    o.n = e;
    o.w = y.w;
    o.lastdt = dt;
    // how much a different cut of the same interval may differ
    double a = std::max(x.a.norm(), y.a.norm()), w = std::max(x.w.norm(), y.w.norm()), da = (y.a - x.a).norm(), dw = (y.w - x.w).norm();
    double mv = dt * dt * (a * w + da * w * dt + a * dw), bv0 = o.bv;
    o.bq += dt * dt * w * dw;
    o.bv += mv + o.bq * a * dt;
    o.bp += bv0 * dt + mv * dt + da * dt * dt;
  }
  return o;
}

static void one(long c, Rng &r) {
  SO o = rand_options(r);
  o.max_clone_size = 50;
  SP s = make_state(o, r);
  bool ideal = r.p(0.6); // no intrinsic errors: the uncertainty is exact
  if (ideal) {
    Mat d(6, 1), q(4, 1);
    if (o.imu_model == SO::KALIBR) d << 1, 0, 0, 1, 0, 1; else d << 1, 0, 1, 0, 0, 1;
    q << 0, 0, 0, 1;
    set_both(s->_calib_imu_dw, d); set_both(s->_calib_imu_da, d); set_both(s->_calib_imu_tg, Mat::Zero(9, 1));
    set_both(s->_calib_imu_GYROtoIMU, q); set_both(s->_calib_imu_ACCtoIMU, q);
  }
  double g0 = 9.81;
  V3 g(0, 0, g0);
  ov_msckf::NoiseManager nm;
  nm.sigma_w = r.logu(1e-4, 1e-2); nm.sigma_a = r.logu(1e-3, 1e-1); nm.sigma_wb = r.logu(1e-5, 1e-3); nm.sigma_ab = r.logu(1e-4, 1e-2);
  Propagator prop(nm, g0);
  double base = r.p(0.2) ? 1.4e9 : r.u(1, 100);
  s->_timestamp = base;
  { Mat t = s->_calib_dt_CAMtoIMU->value(); if (r.p(0.3)) t(0) = 0; else t(0) = r.u(-0.03, 0.03); set_both(s->_calib_dt_CAMtoIMU, t); }
  Signal sig(r, r.logu(0.01, 2), 2);
  double rate = r.logu(80, 500);
  std::vector<Imu> all;
  double tr = base + s->_calib_dt_CAMtoIMU->value()(0) - 0.04;
  auto feed = [&](double until) {
    while (tr < until) { tr += r.u(0.7, 1.3) / rate; Imu m = sig.at(tr, base); all.push_back(m); prop.feed_imu(m); }
  };
  auto newcov = [&]() { auto v = variables(s); rand_cov(s, v, r); };
  newcov();
  feed(base + s->_calib_dt_CAMtoIMU->value()(0) + r.u(0.02, 0.3));
  std::string cfg = optname(o) + fmt(" offset %.4f rate%.0f ideal%d", s->_calib_dt_CAMtoIMU->value()(0), rate, ideal);
  bool onreading = r.p(0.6); // requests at reading times only, as the callers make them
  int nops = r.i(4, 14);
  int since = 0;
  std::string hist;
  double last_req = -1;
  for (int k = 0; k < nops; k++) {
    double filt = s->_timestamp + s->_calib_dt_CAMtoIMU->value()(0);
    int op = r.i(0, 9);
    if (op == 0 || op == 1) { // the filter moves on, as after a camera frame
      double cam = s->_timestamp + r.u(0.03, 0.1);
      feed(cam + s->_calib_dt_CAMtoIMU->value()(0) + r.u(0.01, 0.1));
      prop.propagate_and_clone(s, cam);
      s->_imu->update(r.vec(15, 0.01));
      if (r.p(0.5)) { Mat t = s->_calib_dt_CAMtoIMU->value(); t(0) += r.u(-0.003, 0.003); s->_calib_dt_CAMtoIMU->set_value(t); }
      if (r.p(0.5)) newcov();
      prop.invalidate_cache();
      hist += "U"; since = 0; last_req = -1;
      count("updates");
      continue;
    }
    if (op == 2) { feed(tr + r.u(0.005, 0.1)); hist += "f"; continue; }
    if (op == 3) { prop.invalidate_cache(); hist += "i"; since = 0; continue; }
    if (op == 4 && r.p(0.3)) { // nothing after the filter time, or a time before it: whatever the answer, nothing may change
      S13 x; C12 P;
      double t = filt - r.u(0, 0.03);
      prop.fast_state_propagate(s, t, x, P);
      hist += "b";
      count("before");
      continue;
    }
    // a request
    std::vector<double> cand;
    for (auto &m : all) if (m.timestamp > filt + 1e-6) cand.push_back(m.timestamp);
    if (cand.empty()) continue;
    double t = onreading ? cand[r.i(0, cand.size() - 1)] : r.u(filt + 1e-4, cand.back());
    if (t <= filt + 1e-5) continue;
    if (r.p(0.6) && last_req > 0) { // mostly forward in time
      std::vector<double> fw;
      for (double q : cand) if (q > last_req) fw.push_back(q);
      if (!fw.empty()) t = onreading ? fw[r.i(0, std::min<int>(fw.size() - 1, 10))] : last_req + r.u(1e-4, 1) * (fw.back() - last_req);
    } else if (r.p(0.15) && last_req > filt + 1e-5) { t = last_req; count("repeated"); }
    if (last_req > 0 && t < last_req) count("backward");
    if (last_req > 0 && t > last_req) count("forward");
    bool first = since == 0;
    std::vector<TP> v = variables(s);
    std::vector<Mat> vals, fejs;
    for (auto &q : v) { vals.push_back(q->value()); fejs.push_back(q->fej()); }
    Mat P0 = StateHelper::get_full_covariance(s);
    double ts = s->_timestamp;
    size_t nc = s->_clones_IMU.size();
    S13 x = S13::Constant(7); C12 P = C12::Constant(7);
    bool ok = prop.fast_state_propagate(s, t, x, P);
    hist += "p";
    std::string d = cfg + fmt(" after '%s', filter %.6f (inertial clock), request +%.6f, last request %+.6f", hist.c_str(), filt, t - filt, last_req > 0 ? last_req - filt : 0.0);
    // the filter
    bool same = s->_timestamp == ts && s->_clones_IMU.size() == nc && StateHelper::get_full_covariance(s) == P0;
    for (size_t q = 0; q < v.size(); q++) same &= v[q]->value() == vals[q] && v[q]->fej() == fejs[q];
    check(same, "filter-changed", d);
    since++;
    if (!check(ok, "failed", d)) { last_req = t; continue; }
    Mat P15 = cov_of(s, {TP(s->_imu)});
    auto sel = select(all, filt, t);
    Pred e = predict(cal_of(s), nav_of(s->_imu->value()), P15, sel, g, nm);
    double sc = 1 + e.n.p.norm() + e.n.v.norm();
    double tq = 1e-8, tv = 1e-8 * sc, tp = 1e-8 * sc;
    if (!onreading) { tq += e.bq; tv += e.bv; tp += e.bp; }
    near(V4(x.head(4)).norm(), 1.0, 1e-8, "unit", d);
    near(V3(logm(jpl2R(V4(x.head(4))) * e.n.R.transpose())), V3::Zero(), tq, "orientation", d);
    near(V3(x.segment(4, 3)), e.n.p, tp, "position", d);
    near(V3(x.segment(7, 3)), V3(e.n.R * e.n.v), tv + tq * e.n.v.norm(), "velocity", d);
    near(V3(x.segment(10, 3)), e.w, 1e-8, "rate", d);
    // uncertainty of orientation, position and velocity in the body frame
    Mat J = Mat::Zero(9, 15);
    J.leftCols(6).topRows(6).setIdentity();
    J.block(6, 6, 3, 3) = e.n.R;
    J.block(6, 0, 3, 3) = skew(e.n.R * e.n.v);
    Mat W = J * e.P * J.transpose();
    Vec is = W.diagonal().cwiseSqrt().cwiseInverse();
    Mat got = is.asDiagonal() * P.topLeftCorner(9, 9) * is.asDiagonal(), want = is.asDiagonal() * W * is.asDiagonal();
    double tc = ideal ? (onreading ? 1e-5 : 0.05) : 0.35;
    near(got, want, tc, ideal ? "covariance" : "covariance:loose", d);
    check_cov(P.topLeftCorner(9, 9), "covariance", d, 1e-5);
    near(P.block(0, 9, 9, 3), Mat::Zero(9, 3), 1e300, "covariance:finite", d);
    if (onreading) nearrel(P.block(9, 9, 3, 3), nm.sigma_w * nm.sigma_w / e.lastdt * M3::Identity(), 1e-6, "covariance:rate", d);
    else check(P(9, 9) > 0 && P(10, 10) > 0 && P(11, 11) > 0, "covariance:rate-positive", d);
    last_req = t;
    count(first ? "first" : "later");
    count("requests");
    distinct(fmt("%d:%d:%d:%d:%s", o.imu_model, ideal, onreading, first, hist.size() > 5 ? hist.substr(hist.size() - 5).c_str() : hist.c_str()));
  }
  // no readings after the filter time
  if (r.p(0.2)) {
    Propagator p2(nm, g0);
    S13 x; C12 P;
    check(!p2.fast_state_propagate(s, s->_timestamp + 0.1, x, P), "no-readings-accepted", cfg);
    double filt = s->_timestamp + s->_calib_dt_CAMtoIMU->value()(0);
    for (int k = 0; k < 5; k++) p2.feed_imu(sig.at(filt - 0.05 + 0.005 * k, base));
    check(!p2.fast_state_propagate(s, filt + 0.05, x, P), "old-readings-accepted", cfg);
    count("refused");
  }
  if (c < 3) sample(cfg + " " + hist);
}
int main(int argc, char **argv) {
  init(argc, argv);
  ov_core::Printer::setPrintLevel("SILENT");
  run_cases(ctx().a.thorough() ? 60000 : 2400, one);
  return finish();
}
