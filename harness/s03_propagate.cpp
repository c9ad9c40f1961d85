// S03: propagation between camera times: interval, interpolation, mean, and what must not move.
#include "vimu.h"
using namespace vimu;
using ov_msckf::Propagator;
using ov_msckf::StateHelper;

static void selection(Rng &r) { // the reading selection on its own, on irregular streams
  double base = r.p(0.3) ? 1.5e9 + r.u(0, 1e6) : r.u(0, 100), rate = r.logu(20, 1000);
  std::vector<Imu> all;
  double t = base;
  int n = r.i(2, 60);
  for (int k = 0; k < n; k++) {
    Imu m; m.timestamp = t; m.wm = r.v3(); m.am = r.v3(5);
    all.push_back(m);
    if (r.p(0.1)) all.push_back(m);              // duplicated
    if (r.p(0.05)) { all.push_back(m); all.push_back(m); }
    t += r.p(0.1) ? r.u(2, 20) / rate : r.u(0.3, 1.7) / rate;
  }
  // interval inside what the readings cover, with ends on, between or at the outermost readings
  auto pt = [&]() { double x = all.front().timestamp, y = all.back().timestamp; return r.p(0.4) ? all[r.i(0, all.size() - 1)].timestamp : r.u(x, y); };
  double t0 = pt(), t1 = pt();
  if (t1 < t0) std::swap(t0, t1);
  if (t1 - t0 < 1e-6) return;
  auto got = Propagator::select_imu_readings(all, t0, t1, r.p(0.5));
  auto want = select(all, t0, t1);
  std::string d = fmt("%zu readings, interval %.9f + %.9f", all.size(), t0, t1 - t0);
  if (!check(got.size() >= 2, "select:none", d)) return;
  check(got.front().timestamp == t0 && got.back().timestamp == t1, "select:ends", d + fmt(" got %.9f .. %.9f", got.front().timestamp - t0, got.back().timestamp - t0));
  for (size_t k = 1; k < got.size(); k++) if (!check(got[k].timestamp > got[k - 1].timestamp, "select:increasing", d)) return;
  if (!check(got.size() == want.size(), "select:count", d + fmt(" got %zu expected %zu", got.size(), want.size()))) return;
  double mx = 1e-9;
  for (size_t k = 0; k < got.size(); k++) {
    near(got[k].timestamp, want[k].timestamp, 0, "select:time", d);
    near(got[k].wm, want[k].wm, mx, "select:gyro", d + fmt(" entry %zu of %zu", k, got.size()));
    near(got[k].am, want[k].am, 5 * mx, "select:accel", d + fmt(" entry %zu of %zu", k, got.size()));
  }
  count("selections");
}

static void history(long c, Rng &r) {
  SO o = rand_options(r);
  o.max_clone_size = 50;
  SP s = make_state(o, r);
  double g0 = r.p(0.8) ? 9.81 : r.u(1, 20);
  V3 g(0, 0, g0);
  ov_msckf::NoiseManager nm;
  Propagator prop(nm, g0);
  double base = r.p(0.3) ? 1.4e9 + std::floor(r.u(0, 1e6)) : r.u(0.5, 100);
  s->_timestamp = base;
  int motion = r.i(0, 3); // 0 slow, 1 normal, 2 fast, 3 still
  Signal sig(r, motion == 0 ? 0.002 : motion == 1 ? 0.4 : motion == 2 ? 3 : 0, motion == 3 ? 0 : motion == 2 ? 8 : 1);
  sig.constant = r.p(0.2);
  if (motion == 3) { sig.w0.setZero(); sig.wa.setZero(); }
  // sometimes readings whose corrected rate is exactly zero
  bool exactzero = motion == 3 && r.p(0.5);
  if (exactzero) { set_both(s->_calib_imu_tg, Mat::Zero(9, 1)); Mat x = s->_imu->value(); x.block(10, 0, 3, 1).setZero(); set_both(s->_imu, x); }
  double rate = r.logu(motion == 2 ? 100 : 40, 1000);
  int stream = r.i(0, 3); // 0 regular, 1 jitter, 2 drops, 3 duplicates
  // a landmark and other variables that must not move
  std::vector<Imu> all;
  double tr = base + s->_calib_dt_CAMtoIMU->value()(0) - r.u(0.5, 3) / rate;
  auto push = [&](const Imu &m, bool clean) { all.push_back(m); prop.feed_imu(m, clean ? s->_timestamp - 0.2 : -1); };
  push(sig.at(tr, base), false);
  double last_off = s->_calib_dt_CAMtoIMU->value()(0);
  bool have = false;
  int steps = r.i(1, 5);
  bool cleaning = r.p(0.5);
  vs::variables(s);
  {
    std::vector<TP> v = variables(s);
    rand_cov(s, v, r);
  }
  std::string cfg = optname(o) + fmt(" motion%d rate%.0f stream%d", motion, rate, stream);
  for (int k = 0; k < steps; k++) {
    // between two propagations the filter is updated: inertial state and offset jump a little
    if (k > 0 && r.p(0.5)) {
      Vec dx = r.vec(15, 1e-3);
      s->_imu->update(dx);
      count("jumps");
    }
    if (k > 0 && r.p(0.5)) {
      Mat t = s->_calib_dt_CAMtoIMU->value();
      t(0) += r.u(-0.003, 0.003);
      s->_calib_dt_CAMtoIMU->set_value(t);
      count("offset-changes");
    }
    double off = s->_calib_dt_CAMtoIMU->value()(0);
    double t0 = s->_timestamp + (have ? last_off : off);
    int len = r.i(0, 3); // 0 camera rate, 1 tiny, 2 long, 3 ends on a reading
    double cam = s->_timestamp + (len == 1 ? r.logu(2e-4, 5e-3) + 0.0032 : len == 2 ? r.u(0.3, 1.0) : r.u(0.02, 0.12));
    int endk = r.i(0, 3); // 0,1 readings go past the end, 2 the last reading is before the end, 3 the last reading is exactly the end
    double t1 = cam + off;
    if (t1 - t0 < 1e-5) { cam = s->_timestamp + 0.05; t1 = cam + off; }
    double stop = endk == 2 ? t1 : t1 + r.u(0.1, 4) / rate;
    bool exact = false;
    while (true) {
      double step = stream == 0 ? 1 / rate : stream == 2 && r.p(0.1) ? r.u(2, 12) / rate : r.u(stream == 1 ? 0.2 : 0.8, stream == 1 ? 1.8 : 1.2) / rate;
      double nt = tr + step;
      if (endk == 2 && nt >= stop && all.back().timestamp > t0) break; // never leave the start uncovered
      if ((endk == 3 || (len == 3 && endk < 2)) && !exact && nt > t1 - 0.3 / rate && t1 > tr) { nt = t1; exact = true; }
      tr = nt;
      Imu m = sig.at(tr, base);
      push(m, cleaning);
      if (stream == 3 && r.p(0.15)) { push(m, cleaning); count("duplicates"); }
      if (endk == 3 && exact) break;
      if (tr > stop) break;
    }
    if (all.size() < 2 || all.front().timestamp >= all.back().timestamp) return;
    double beyond = t1 - all.back().timestamp;
    if (beyond > 0) count("extrapolated");
    Cal cal = cal_of(s);
    // past the last reading the signal continues on its last slope, so whether that reading is a step of its own is the filter's choice
    struct Ref { std::vector<Imu> sel; Nav ref, tru; double tq, tv, tp, bq, bv, bp; };
    std::vector<Ref> refs(1);
    refs[0].sel = select(all, t0, t1);
    if (beyond > 0 && refs[0].sel.size() > 2) { refs.push_back(refs[0]); refs[1].sel.erase(refs[1].sel.end() - 2); }
    Nav n0 = nav_of(s->_imu->value());
    for (auto &R : refs) {
    std::vector<WA> wa;
    for (auto &m : R.sel) wa.push_back(correct(cal, m));
    Nav ref = n0, tru = n0;
    auto method = o.integration_method;
    double tq = 1e-9, tv = 1e-9, tp = 1e-9, eq = 0, ev = 0, ep = 0, bq = 1e-9, bv = 1e-9, bp = 1e-9;
    for (size_t q = 0; q + 1 < wa.size(); q++) {
      double dt = wa[q + 1].t - wa[q].t, w = std::max(wa[q].w.norm(), wa[q + 1].w.norm()), dw = (wa[q + 1].w - wa[q].w).norm();
      double a = std::max(wa[q].a.norm(), wa[q + 1].a.norm()), da = (wa[q + 1].a - wa[q].a).norm(), th = w * dt;
      ref = method == SO::DISCRETE ? step_discrete(ref, wa[q], wa[q + 1], g) : method == SO::ANALYTICAL ? step_exact_mean(ref, wa[q], wa[q + 1], g) : step_truth(ref, wa[q], wa[q + 1], g, 4);
      tru = step_truth(tru, wa[q], wa[q + 1], g);
      // position inherits the velocity error of earlier steps
      double ddt_q = 0, ddt_v = 0;
      if (method == SO::RK4) { double be = dw * dt; ddt_q = 0.3 * std::pow(th, 4) * (th + be) + 0.2 * (be * be * th + th * th * th * be + be * be * be) + 1e-16; ddt_v = 0.8 * dt * (a * (std::pow(th, 4) + th * th * be + be * be) + da * (th * th * th + th * be)); }
      else if (method == SO::ANALYTICAL) { double wm = (0.5 * (wa[q].w + wa[q + 1].w)).norm(); if (wm < 0.0088) ddt_v = 0.6 * a * wm * dt * dt; else { ddt_v = 3e-16 * a / wm; ep += 3e-16 * a / (wm * wm); } }
      double o_v = ev;
      eq += ddt_q; ev += ddt_v + eq * a * dt; ep += (o_v + ddt_v) * dt;
      // distance of the method's own model from the linear readings
      double m_q = method == SO::RK4 ? ddt_q : dt * dt * w * dw / 3 + 1e-16;
      double m_v = method == SO::RK4 ? ddt_v : method == SO::DISCRETE ? dt * (0.6 * th * a + 0.3 * th * da + a * dw * dt) : dt * (0.2 * th * da + 0.2 * a * dw * dt + 1e-16) + ddt_v;
      double b_v = bv;
      bq += m_q; bv += m_v + bq * a * dt; bp += (b_v + m_v) * dt + (method == SO::RK4 ? 0 : 0.2 * da * dt * dt);
    }
    R.ref = ref; R.tru = tru;
    R.tq = tq + eq; R.tv = tv + ev; R.tp = tp + ep; R.bq = 1.6 * bq; R.bv = 1.6 * bv; R.bp = 1.6 * bp;
    }
    // what must not move
    std::vector<TP> all_vars = variables(s);
    std::vector<TP> fixed;
    std::vector<Mat> fv, ff;
    for (auto &v : {TP(s->_calib_dt_CAMtoIMU), TP(s->_calib_imu_dw), TP(s->_calib_imu_da), TP(s->_calib_imu_tg), TP(s->_calib_imu_GYROtoIMU), TP(s->_calib_imu_ACCtoIMU)}) fixed.push_back(v);
    for (int q = 0; q < o.num_cameras; q++) { fixed.push_back(s->_calib_IMUtoCAM.at(q)); fixed.push_back(s->_cam_intrinsics.at(q)); }
    for (auto &q : s->_clones_IMU) fixed.push_back(q.second);
    for (auto &v : fixed) { fv.push_back(v->value()); ff.push_back(v->fej()); }
    Mat x0 = s->_imu->value();
    size_t nclones = s->_clones_IMU.size();
    prop.propagate_and_clone(s, cam);
    std::string d = cfg + fmt(" step %d interval %.9f + %.9f readings %zu end %d beyond %.3g", k, t0, t1 - t0, refs[0].sel.size(), endk, beyond);
    have = true; last_off = off;
    check(s->_timestamp == cam, "time", d);
    Mat x1 = s->_imu->value();
    Nav got = nav_of(x1);
    size_t best = 0;
    auto off_by = [&](const Ref &R) { return std::max({(got.v - R.ref.v).norm() / R.tv, (got.p - R.ref.p).norm() / R.tp, logm(got.R * R.ref.R.transpose()).norm() / R.tq}); };
    if (refs.size() > 1 && off_by(refs[1]) < off_by(refs[0])) best = 1;
    auto &ref = refs[best].ref, &tru = refs[best].tru;
    auto &sel = refs[best].sel;
    double tq = refs[best].tq, tv = refs[best].tv, tp = refs[best].tp, bq = refs[best].bq, bv = refs[best].bv, bp = refs[best].bp;
    auto method = o.integration_method;
    near(V4(x1.block(0, 0, 4, 1)).norm(), 1.0, 1e-9, "unit", d);
    V3 q_err = logm(got.R * ref.R.transpose());
    double scale = 1 + ref.p.norm() + ref.v.norm();
    bool ok = near(q_err, V3::Zero(), tq, "orientation", d);
    ok &= near(got.v, ref.v, tv + 1e-11 * scale, "velocity", d);
    ok &= near(got.p, ref.p, tp + 1e-11 * scale, "position", d);
    near(V3(logm(got.R * tru.R.transpose())), V3::Zero(), bq, "truth:orientation", d);
    near(got.v, tru.v, bv + 1e-11 * scale, "truth:velocity", d);
    near(got.p, tru.p, bp + 1e-11 * scale, "truth:position", d);
    const char *mn = method == SO::RK4 ? "rk4" : method == SO::ANALYTICAL ? "analytical" : "discrete";
    if (ok) {
      maxv(std::string("of-tolerance:orientation:") + mn, q_err.norm() / tq);
      maxv(std::string("of-tolerance:velocity:") + mn, (got.v - ref.v).norm() / (tv + 1e-11 * scale));
      maxv(std::string("of-tolerance:position:") + mn, (got.p - ref.p).norm() / (tp + 1e-11 * scale));
      maxv(std::string("of-bound:velocity:") + mn, (got.v - tru.v).norm() / bv);
      maxv(std::string("of-bound:position:") + mn, (got.p - tru.p).norm() / bp);
      maxv(std::string("of-bound:orientation:") + mn, logm(got.R * tru.R.transpose()).norm() / bq);
    }
    check(x1.block(10, 0, 6, 1) == x0.block(10, 0, 6, 1), "bias-moved", d);
    for (size_t q = 0; q < fixed.size(); q++) check(fixed[q]->value() == fv[q] && fixed[q]->fej() == ff[q], "moved", d + fmt(" variable %zu", q));
    if (check(s->_clones_IMU.size() == nclones + 1 && s->_clones_IMU.count(cam), "clone", d)) {
      check(s->_clones_IMU.at(cam)->value() == x1.block(0, 0, 7, 1), "clone-value", d);
    }
    // the estimate used for linearization from here on is the propagated one
    near(V3(logm(jpl2R(V4(s->_imu->fej().block(0, 0, 4, 1))) * got.R.transpose())), V3::Zero(), 1e-9, "first-estimate:orientation", d);
    near(s->_imu->fej().block(4, 0, 6, 1), x1.block(4, 0, 6, 1), 1e-12, "first-estimate:value", d);
    check_cov(StateHelper::get_full_covariance(s), "cov", d);
    check_tiling(s, variables(s), "layout", d);
    count(fmt("method:%s", mn));
    count("propagations");
    distinct(fmt("%s:%d:%d:%d:%d:%d:%d:%d:%d", mn, o.imu_model, o.do_calib_imu_intrinsics, motion, stream, len, endk, (int)std::min<size_t>(sel.size(), 12), exactzero));
    if (c < 3) sample(d);
  }
}
int main(int argc, char **argv) {
  init(argc, argv);
  ov_core::Printer::setPrintLevel("SILENT");
  run_cases(ctx().a.thorough() ? 100000 : 4000, [](long c, Rng &r) {
    for (int k = 0; k < 4; k++) selection(r);
    history(c, r);
  });
  return finish();
}
