// S25: zero-velocity updates, judged against an independent evaluation of the rest hypothesis and a dense Gaussian update.
#include "vimu.h"
#include "feat/Feature.h"
#include "feat/FeatureDatabase.h"
#include "update/UpdaterOptions.h"
#include "update/UpdaterZeroVelocity.h"
#include "utils/NoiseManager.h"
#include <boost/math/distributions/chi_squared.hpp>
using namespace vimu;

struct Meas { double t; size_t cam; float u, v; };
static std::map<size_t, std::vector<Meas>> stored(const std::shared_ptr<ov_core::FeatureDatabase> &db) {
  std::map<size_t, std::vector<Meas>> o;
  for (auto &f : db->get_internal_data()) {
    auto &v = o[f.first];
    for (auto &c : f.second->timestamps)
      for (size_t k = 0; k < c.second.size(); k++) v.push_back({c.second[k], c.first, f.second->uvs[c.first].at(k)(0), f.second->uvs[c.first].at(k)(1)});
    std::sort(v.begin(), v.end(), [](const Meas &a, const Meas &b) { return std::make_pair(a.cam, a.t) < std::make_pair(b.cam, b.t); });
  }
  return o;
}
static bool same(const std::map<size_t, std::vector<Meas>> &a, const std::map<size_t, std::vector<Meas>> &b) {
  if (a.size() != b.size()) return false;
  for (auto &f : a) {
    auto it = b.find(f.first);
    if (it == b.end() || it->second.size() != f.second.size()) return false;
    for (size_t k = 0; k < f.second.size(); k++) if (f.second[k].t != it->second[k].t || f.second[k].cam != it->second[k].cam || f.second[k].u != it->second[k].u || f.second[k].v != it->second[k].v) return false;
  }
  return true;
}
struct Snap { std::vector<Mat> x, f; Mat P; double t; size_t clones; };
static Snap snap(const SP &s, const std::vector<TP> &v) {
  Snap o;
  for (auto &a : v) { o.x.push_back(a->value()); o.f.push_back(a->fej()); }
  o.P = cov_of(s, v);
  o.t = s->_timestamp;
  o.clones = s->_clones_IMU.size();
  return o;
}
/// residual and derivative of the rest hypothesis over the readings, weighted to unit noise
struct Rest { Mat H; Vec r; double dt; };
static Rest rest(const SP &s, const std::vector<Imu> &w, double gmag, double sw, double sa, bool full) {
  Cal c = cal_of(s);
  M3 R = jpl2R(V4(s->_imu->value().block(0, 0, 4, 1))), Rj = s->_options.do_fej ? jpl2R(V4(s->_imu->fej().block(0, 0, 4, 1))) : R;
  V3 g(0, 0, gmag);
  Rest o;
  int n = (int)w.size() - 1;
  o.H = Mat::Zero(6 * n, 9);
  o.r = Vec::Zero(6 * n);
  o.dt = 0;
  for (int i = 0; i < n; i++) {
    double dt = w[i + 1].timestamp - w[i].timestamp, a = std::sqrt(dt) / sw, b = std::sqrt(dt) / sa;
    WA x = correct(c, w[i]);
    o.r.segment(6 * i, 3) = -a * x.w;
    o.r.segment(6 * i + 3, 3) = -b * (x.a - R * g);
    M3 Ww = full ? M3(c.Rw * c.Dw) : M3::Identity(), Wa = full ? M3(c.Ra * c.Da) : M3::Identity();
    o.H.block(6 * i, 3, 3, 3) = -a * Ww;
    if (full) o.H.block(6 * i, 6, 3, 3) = a * c.Rw * c.Dw * c.Tg * Wa;
    o.H.block(6 * i + 3, 0, 3, 3) = -b * skew(Rj * g);
    o.H.block(6 * i + 3, 6, 3, 3) = -b * Wa;
    o.dt += dt;
  }
  return o;
}
struct Answer { double chi2, extra, likely; int dof; Vec dx; Mat P; };
/// P over variables in the given order, rows of the attitude and the biases at the given places
static Answer answer(const Rest &q, const Mat &P0, const std::vector<int> &at, double mult, double swb, double sab) {
  Mat H = q.H;
  Vec r = q.r;
  Answer o;
  o.dof = std::min(H.rows(), H.cols());
  o.extra = 0;
  {
    // what the readings say about the state: the projection on the range, of six dimensions. The real gate also counts as many other directions
    // as are missing to nine, which are left open
    Eigen::ColPivHouseholderQR<Mat> qr(H);
    qr.setThreshold(1e-9);
    int k = qr.rank();
    Mat Q = qr.householderQ() * Mat::Identity(H.rows(), k);
    Vec rp = r - Q * (Q.transpose() * r);
    if (H.rows() > H.cols()) o.extra = rp.squaredNorm() / mult, o.likely = o.extra * (H.cols() - k) / (H.rows() - k);
    else o.extra = o.likely = rp.squaredNorm() / mult;
    H = Q.transpose() * H;
    r = Q.transpose() * r;
  }
  int n = P0.rows();
  Mat P = P0;
  for (int k = 0; k < 3; k++) { P(at[3 + k], at[3 + k]) += q.dt * swb * swb; P(at[6 + k], at[6 + k]) += q.dt * sab * sab; }
  Mat G = Mat::Zero(H.rows(), n);
  for (int k = 0; k < 9; k++) G.col(at[k]) += H.col(k);
  Mat S = G * P * G.transpose() + mult * Mat::Identity(H.rows(), H.rows());
  Eigen::LDLT<Mat> S1(S);
  o.chi2 = r.dot(S1.solve(r));
  Mat K = S1.solve(G * P).transpose();
  o.dx = K * r;
  o.P = P - K * S * K.transpose();
  o.P = 0.5 * (o.P + o.P.transpose()).eval();
  return o;
}

static void one(long c, Rng &r) {
  ov_msckf::StateOptions o = rand_options(r);
  auto s = make_state(o, r);
  bool plain = r.p(0.5); // without scale, misalignment and sensitivity the derivative is exact
  if (plain) {
    Mat d(6, 1);
    if (o.imu_model == SO::KALIBR) d << 1, 0, 0, 1, 0, 1;
    else d << 1, 0, 1, 0, 0, 1;
    set_both(s->_calib_imu_dw, d);
    set_both(s->_calib_imu_da, d);
    set_both(s->_calib_imu_tg, Mat(Mat::Zero(9, 1)));
    set_both(s->_calib_imu_GYROtoIMU, R2jpl(M3::Identity()));
    set_both(s->_calib_imu_ACCtoIMU, R2jpl(M3::Identity()));
  }
  double t = r.p(0.2) ? 1.4e9 : r.u(1, 100), gmag = r.p(0.5) ? 9.81 : r.u(9.7, 9.9);
  // poses in the window
  int nc = r.i(1, std::max(1, o.max_clone_size - 1));
  double ct = t - 0.1 * nc;
  for (int k = 0; k < nc; k++) {
    auto p = add_clone(s, ct, V3::Zero());
    ct += 0.1;
    Mat x(7, 1);
    x << r.quat(), r.v3(2);
    set_both(p, x);
  }
  s->_timestamp = t;
  auto vars = variables(s);
  Mat P0 = rand_cov(s, vars, r, r.logu(0.03, 1));
  {
    // a time offset known to less than a millisecond
    int a = 0;
    for (auto &v : vars) { if (v == s->_calib_dt_CAMtoIMU) { double f = 1e-4 / std::sqrt(P0(a, a)); P0.row(a) *= f; P0.col(a) *= f; } a += v->size(); }
    ov_msckf::StateHelper::set_initial_covariance(s, P0, vars);
  }
  // noise and gates
  ov_msckf::NoiseManager nm;
  nm.sigma_w = r.logu(1e-4, 1e-2); nm.sigma_a = r.logu(1e-3, 5e-2); nm.sigma_wb = r.logu(1e-5, 1e-2); nm.sigma_ab = r.logu(1e-4, 3e-2);
  ov_msckf::UpdaterOptions uo;
  uo.chi2_multipler = r.p(0.5) ? 1 : r.logu(0.3, 4);
  double vmax = r.logu(0.05, 1), mult = r.logu(1, 30), dmax = r.u(0.5, 3);
  auto db = std::make_shared<ov_core::FeatureDatabase>();
  auto prop = std::make_shared<ov_msckf::Propagator>(nm, gmag);
  ov_msckf::UpdaterZeroVelocity z(uo, nm, db, prop, gmag, vmax, mult, dmax);
  // velocity of the estimate
  auto set_velocity = [&]() {
    Mat x = s->_imu->value();
    x.block(7, 0, 3, 1) = r.dir() * (r.p(0.7) ? vmax * r.u(0, 0.95) : vmax * r.u(1.05, 3));
    Mat f = x;
    if (r.p(0.5)) { f.block(0, 0, 4, 1) = qplus(V4(x.block(0, 0, 4, 1)), r.v3(0.01)); f.block(4, 0, 12, 1) += r.vec(12, 0.01); }
    s->_imu->set_value(x);
    s->_imu->set_fej(f);
  };
  set_velocity();
  // true biases and attitude away from the estimate by what its covariance says
  double rate = r.u(100, 400);
  std::vector<Imu> all;
  double tt = t - 0.3;
  int steps = r.i(2, 6);
  // the disturbance of the rest changes between steps
  V3 wd = V3::Zero(), ad = V3::Zero(), db_g = r.v3(1), db_a = r.v3(1);
  Vec sd = s->_imu->id() >= 0 ? Vec(cov_of(s, {s->_imu}).diagonal().cwiseSqrt()) : Vec();
  db_g = db_g.cwiseProduct(V3(sd.segment(9, 3))) * r.u(0, 1.2);
  db_a = db_a.cwiseProduct(V3(sd.segment(12, 3))) * r.u(0, 1.2);
  V3 th = r.v3(1).cwiseProduct(V3(sd.segment(0, 3))) * r.u(0, 1.2);
  Mat x0 = s->_imu->value();
  M3 Rt = expm(th) * jpl2R(V4(x0.block(0, 0, 4, 1)));
  V3 bg = x0.block(10, 0, 3, 1), ba = x0.block(13, 0, 3, 1);
  bg += db_g; ba += db_a;
  double noise = r.p(0.2) ? 0 : r.u(0.3, 1.2);
  auto produce = [&](double to) {
    Cal cal = cal_of(s);
    while (all.empty() || all.back().timestamp <= to) {
      V3 a = Rt * V3(0, 0, gmag) + ad, w = wd;
      Imu m;
      m.timestamp = tt;
      m.am = cal.Da.inverse() * cal.Ra.transpose() * a + ba;
      m.wm = cal.Dw.inverse() * cal.Rw.transpose() * w + cal.Tg * (cal.Ra * cal.Da * (m.am - ba)) + bg;
      double q = noise * std::sqrt(rate);
      m.wm += nm.sigma_w * q * V3(r.n(1), r.n(1), r.n(1));
      m.am += nm.sigma_a * q * V3(r.n(1), r.n(1), r.n(1));
      all.push_back(m);
      double old = s->_timestamp + s->_calib_dt_CAMtoIMU->value()(0) - r.u(0, 0.3);
      z.feed_imu(m, r.p(0.8) ? old : -1);
      tt += r.u(0.8, 1.2) / rate;
    }
  };
  std::string ds0 = optname(o) + fmt(" plain %d rate %.0f mult %.2f gate %.2f vmax %.3f dmax %.2f sw %.1e sa %.1e swb %.1e sab %.1e clones %d", plain, rate, mult, uo.chi2_multipler, vmax, dmax, nm.sigma_w, nm.sigma_a, nm.sigma_wb, nm.sigma_ab, nc);
  std::vector<int> at;
  {
    int a = 0;
    for (auto &v : vars) { if (v == s->_imu) for (int k : {0, 1, 2, 9, 10, 11, 12, 13, 14}) at.push_back(a + k); a += v->size(); }
  }
  if (r.p(0.1)) {
    // nothing to judge with
    Snap b = snap(s, vars);
    bool got = z.try_update(s, t + 0.1);
    Snap e = snap(s, vars);
    check(!got && b.x == e.x && b.f == e.f && b.P == e.P && b.t == e.t && b.clones == e.clones, "no-readings", ds0);
    count("refused:no-readings");
  }
  bool have = false;
  double last_off = 0, last_rest = 0, now = t;
  int consecutive = 0;
  size_t nextid = 100;
  std::vector<size_t> live;
  for (int step = 0; step < steps; step++) {
    // the main filter may have moved on, and calibrated, since
    if (r.p(0.3)) { Mat d = s->_calib_dt_CAMtoIMU->value(); d(0) += r.u(-2e-3, 2e-3); s->_calib_dt_CAMtoIMU->set_value(d); }
    if (r.p(0.4)) set_velocity();
    double next = now + (r.p(0.8) ? r.u(0.03, 0.12) : r.u(0.2, 0.6));
    int motion = r.i(0, 4); // 0 1: rest, 2 slow rotation, 3 acceleration, 4 both, of random size around what the gate can see
    double size = r.logu(0.01, 100);
    wd = motion == 2 || motion == 4 ? V3(r.dir() * size * nm.sigma_w * std::sqrt(mult * 17 / (next - now))) : V3(V3::Zero());
    ad = motion >= 3 ? V3(r.dir() * size * nm.sigma_a * std::sqrt(mult * 17 / (next - now))) : V3(V3::Zero());
    double off = s->_calib_dt_CAMtoIMU->value()(0);
    produce(next + off + r.u(0.005, 0.05));
    // features between the frames
    int nf = r.i(0, 60);
    if (r.p(0.3)) live.clear();
    double disp = r.p(0.5) ? dmax * r.u(0.1, 0.95) : dmax * r.u(1.05, 4);
    for (int k = 0; k < nf; k++) {
      size_t id;
      if (k < (int)live.size()) id = live[k];
      else { id = nextid++; live.push_back(id); }
      int cam = (int)(id % o.num_cameras);
      auto f = db->get_internal_data();
      float u = (float)r.u(50, 600), v = (float)r.u(50, 400);
      if (!f.count(id) || f[id]->timestamps[cam].empty()) { if (r.p(0.8)) db->update_feature(id, now, cam, u, v, 0.1f, 0.1f); }
      else { u = f[id]->uvs[cam].back()(0); v = f[id]->uvs[cam].back()(1); }
      double ang = r.u(0, 6.28), d = disp * r.u(0.95, 1.05);
      if (r.p(0.9)) db->update_feature(id, next, cam, u + (float)(d * std::cos(ang)), v + (float)(d * std::sin(ang)), 0.1f, 0.1f);
    }
    if (live.size() > (size_t)nf) live.resize(nf);
    bool repeated = r.p(0.05), backward = !repeated && r.p(0.08);
    double frame = repeated ? now : backward ? now - r.u(0.001, 0.2) : next;
    // expectation
    Snap b = snap(s, vars);
    auto m0 = stored(db);
    std::string ds = ds0 + fmt(" step %d of %d motion %d size %.3g speed %.3f features %d", step, steps, motion, size, s->_imu->value().block(7, 0, 3, 1).norm(), nf);
    if (repeated || backward) {
      bool got = z.try_update(s, frame);
      Snap e = snap(s, vars);
      check(!got && b.x == e.x && b.f == e.f && b.P == e.P && b.t == e.t && b.clones == e.clones && same(m0, stored(db)), repeated ? "repeated-frame" : "older-frame", ds + fmt(" frame %.6f at %.6f: accepted %d", frame, now, got));
      count(repeated ? "refused:repeated" : "refused:older");
      if (got) return;
      last_rest = 0;
      continue;
    }
    double t0 = now + (have ? last_off : off), t1 = next + off;
    have = true;
    last_off = off;
    std::vector<Imu> w = select(all, t0, t1);
    Answer A, B;
    {
      Rest q = rest(s, w, gmag, nm.sigma_w, nm.sigma_a, false);
      A = answer(q, b.P, at, mult, nm.sigma_wb, nm.sigma_ab);
      Rest q2 = rest(s, w, gmag, nm.sigma_w, nm.sigma_a, true);
      B = answer(q2, b.P, at, mult, nm.sigma_wb, nm.sigma_ab);
    }
    double gate = uo.chi2_multipler * boost::math::quantile(boost::math::chi_squared(A.dof), 0.95);
    double speed = s->_imu->value().block(7, 0, 3, 1).norm();
    double dsum = 0;
    int dn = 0;
    for (auto &f : m0)
      for (auto &m : f.second) for (auto &k : f.second) if (m.cam == k.cam && m.t == now && k.t == next) { dsum += std::hypot(m.u - k.u, m.v - k.v); dn++; }
    bool still = dn > 20 && dsum / dn < dmax;
    bool restA = A.chi2 + A.likely <= gate && speed <= vmax;
    bool want = still || restA;
    double least = std::min(A.chi2, B.chi2) * (1 - 1e-6), most = std::max(A.chi2 + A.extra, B.chi2 + B.extra) * (1 + 1e-6);
    bool unsure = !still && speed <= vmax && least <= gate && gate <= most;
    bool got = z.try_update(s, next);
    Snap e = snap(s, vars);
    ds += fmt(" chi2 %.6g gate %.6g disparity %.3f (%d) accepted %d", A.chi2, gate, dn ? dsum / dn : -1, dn, got);
    if (!unsure) check(got == want, got ? "accepted-while-moving" : "refused-at-rest", ds);
    else { count("open"); count("open:otherwise", got != want); }
    count("attempts");
    count(got ? still ? restA ? "accepted:both" : "accepted:disparity" : "accepted:readings" : A.chi2 > gate ? speed > vmax ? "refused:both" : "refused:readings" : "refused:speed");
    distinct(fmt("%s:%d:%d:%d:%d:%d:%d", optname(o).c_str(), got, still, restA, motion, (int)std::log2(size), consecutive));
    if (!got) {
      check(b.x == e.x && b.f == e.f && b.P == e.P && b.t == e.t && b.clones == e.clones, "refusal-changed-filter", ds);
      check(same(m0, stored(db)), "refusal-changed-tracks", ds);
      consecutive = 0;
      last_rest = 0;
      // the main filter takes over
      now = next;
      s->_timestamp = now;
      continue;
    }
    check(e.t == next, "time", ds);
    check(e.clones == b.clones && s->_clones_IMU.count(next) == 0, "clone", ds);
    check(e.f == b.f, "first-estimates", ds);
    if (!check_tiling(s, vars, "update", ds)) return;
    int a = 0;
    double worst = 0, allow = 0;
    Vec sdv = e.P.diagonal().cwiseMax(1e-300).cwiseSqrt(), sd0 = b.P.diagonal().cwiseMax(1e-300).cwiseSqrt();
    for (size_t k = 0; k < vars.size(); k++) {
      int n = vars[k]->size();
      auto quat = [&](const Vec &d) { return boxplus(vars[k], b.x[k], d); };
      Mat wa = quat(A.dx.segment(a, n)), wb = quat(B.dx.segment(a, n));
      Vec ea = boxminus(vars[k], e.x[k], wa), ab = boxminus(vars[k], wb, wa);
      Vec sc = sd0.segment(a, n);
      worst = std::max(worst, ea.cwiseQuotient(sc).cwiseAbs().maxCoeff());
      allow = std::max(allow, ab.cwiseQuotient(sc).cwiseAbs().maxCoeff());
      a += n;
    }
    double size_dx = A.dx.cwiseQuotient(sd0).cwiseAbs().maxCoeff();
    check(worst <= 1e-6 * (1 + size_dx) + 1.5 * allow, "state", ds + fmt(" off by %.3g sigma (correction %.3g, allowed %.3g)", worst, size_dx, allow));
    Mat D = (sd0 * sd0.transpose()).cwiseInverse();
    double pe = (e.P - A.P).cwiseProduct(D).cwiseAbs().maxCoeff(), pa = (B.P - A.P).cwiseProduct(D).cwiseAbs().maxCoeff();
    check(pe <= 1e-6 + 1.5 * pa, "covariance", ds + fmt(" off by %.3g (allowed %.3g)", pe, pa));
    maxv("covariance difference (relative)", plain ? pe : 0);
    check_cov(e.P, "covariance:form", ds);
    // the tracks: only those of the rest frame before this one may go, and only once resting for a while
    auto want_m = m0;
    if (consecutive >= 2) {
      for (auto it = want_m.begin(); it != want_m.end();) {
        auto &v = it->second;
        v.erase(std::remove_if(v.begin(), v.end(), [&](const Meas &m) { return m.t == last_rest; }), v.end());
        it = v.empty() ? want_m.erase(it) : std::next(it);
      }
      count("tracks-dropped", !same(want_m, m0));
    }
    check(same(want_m, stored(db)), "tracks", ds + fmt(" after %d rests", consecutive));
    consecutive++;
    last_rest = next;
    now = next;
    if (r.p(0.5)) z.clean_old_imu_measurements(next + s->_calib_dt_CAMtoIMU->value()(0) - 0.10);
  }
  if (c < 6) sample(ds0);
}
/// propagation resumes where a zero-velocity update left the state, whatever happened to the offset
static void resume(long, Rng &r) {
  ov_msckf::StateOptions o = rand_options(r);
  o.do_calib_imu_intrinsics = o.do_calib_imu_g_sensitivity = false;
  auto s = make_state(o, r);
  Mat d(6, 1);
  if (o.imu_model == SO::KALIBR) d << 1, 0, 0, 1, 0, 1;
  else d << 1, 0, 1, 0, 0, 1;
  set_both(s->_calib_imu_dw, d);
  set_both(s->_calib_imu_da, d);
  set_both(s->_calib_imu_tg, Mat(Mat::Zero(9, 1)));
  set_both(s->_calib_imu_GYROtoIMU, R2jpl(M3::Identity()));
  set_both(s->_calib_imu_ACCtoIMU, R2jpl(M3::Identity()));
  auto vars = variables(s);
  int n = 0;
  for (auto &v : vars) n += v->size();
  ov_msckf::StateHelper::set_initial_covariance(s, Mat(1e-6 * Mat::Identity(n, n)), vars);
  double t = r.u(1, 100), gmag = 9.81, step = r.u(0.05, 0.15);
  ov_msckf::NoiseManager nm;
  ov_msckf::UpdaterOptions uo;
  uo.chi2_multipler = 1e9;
  auto db = std::make_shared<ov_core::FeatureDatabase>();
  auto prop = std::make_shared<ov_msckf::Propagator>(nm, gmag);
  ov_msckf::UpdaterZeroVelocity z(uo, nm, db, prop, gmag, 1e3, 100, 0);
  Mat x = s->_imu->value();
  x << r.quat(), r.v3(2), V3(0, 0, 0), r.v3(0.1), r.v3(0.1);
  set_both(s->_imu, x);
  s->_timestamp = t;
  V3 w = r.dir() * r.u(0.5, 2) + V3(x.block(10, 0, 3, 1)), a = jpl2R(V4(x.block(0, 0, 4, 1))) * V3(0, 0, gmag) + V3(x.block(13, 0, 3, 1));
  double tt = t - 0.5;
  auto produce = [&](double to) {
    for (; tt < to; tt += r.u(0.8, 1.2) / 200) {
      Imu m;
      m.timestamp = tt; m.wm = w; m.am = a;
      prop->feed_imu(m, -1);
      z.feed_imu(m, -1);
    }
  };
  auto offset = [&]() { return s->_calib_dt_CAMtoIMU->value()(0); };
  auto change = [&]() { Mat v = s->_calib_dt_CAMtoIMU->value(); v(0) += r.u(-0.01, 0.01); s->_calib_dt_CAMtoIMU->set_value(v); };
  double at = t, ref = t + offset(); // frame time, and inertial time it stands for
  int rests = 0;
  std::string how;
  for (int k = 0; k < r.i(3, 7); k++) {
    at += step;
    produce(at + 0.3);
    double off = offset();
    bool moved = false;
    if (k && r.p(0.6)) { // as the estimator does: first ask whether at rest
      moved = z.try_update(s, at);
      how += moved ? "z" : "-";
      if (!check(moved, "resume:refused", how)) return;
      rests++;
    } else {
      M3 R0 = jpl2R(V4(s->_imu->value().block(0, 0, 4, 1)));
      V3 wh = w - V3(s->_imu->value().block(10, 0, 3, 1));
      prop->propagate_and_clone(s, at);
      ov_msckf::StateHelper::marginalize(s, s->_clones_IMU.at(at));
      s->_clones_IMU.erase(at);
      M3 R1 = jpl2R(V4(s->_imu->value().block(0, 0, 4, 1)));
      double got = logm(R1 * R0.transpose()).norm() / wh.norm(), want = at + off - ref;
      how += "p";
      vh::near(got, want, 1e-6, "resume:interval", how + fmt(" rate %.3f: %.9f s of motion, asked for %.9f s", wh.norm(), got, want));
      count(rests ? "resumed" : "propagated");
      rests = 0;
    }
    ref = at + off;
    change();
  }
  distinct("resume " + how);
}
static void all(long c, Rng &r) {
  if (c % 20 == 19) resume(c, r);
  else one(c, r);
}
int main(int argc, char **argv) {
  init(argc, argv);
  ov_core::Printer::setPrintLevel("SILENT");
  run_cases(ctx().a.thorough() ? 400000 : 20000, all);
  return finish();
}
