// S22: static initialization.
#include "vh.h"
#include "feat/Feature.h"
#include "feat/FeatureDatabase.h"
#include "init/InertialInitializer.h"
#include "init/InertialInitializerOptions.h"
#include "static/StaticInitializer.h"
#include "types/IMU.h"
#include "utils/print.h"
#include "utils/sensor_data.h"
using namespace vh;
typedef ov_core::ImuData Imu;
typedef std::shared_ptr<std::vector<Imu>> Data;
typedef Eigen::Vector4d V4;

struct Out {
  bool ok = false;
  double t = -77;
  Mat P = Mat::Constant(2, 2, 5), x, f;
  std::vector<std::shared_ptr<ov_type::Type>> order;
  std::shared_ptr<ov_type::IMU> imu;
};
static Vec sentinel() {
  Vec v(16);
  v << 0.1, 0.2, 0.3, 0.4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16;
  v.head(4) /= v.head(4).norm();
  return v;
}
template <class F> static Out run(F f) {
  Out o;
  o.imu = std::make_shared<ov_type::IMU>();
  o.imu->set_local_id(0);
  o.imu->set_value(sentinel());
  o.imu->set_fej(sentinel());
  o.ok = f(o);
  o.x = o.imu->value();
  o.f = o.imu->fej();
  return o;
}
/// what the written contract says about readings in time order
struct Want { int dec = -1; /* 1 accept, 0 refuse, -1 too close to call */ double t = 0; V3 a, w; };
static Want oracle(const std::vector<Imu> &d, double T, double thr, bool wait) {
  Want o;
  o.dec = 0;
  if (d.size() < 2) return o;
  double n = d.back().timestamp;
  if (std::abs(n - d.front().timestamp - T) < 1e-9) { o.dec = -1; return o; }
  if (n - d.front().timestamp < T) return o;
  std::vector<const Imu *> nw, od;
  for (auto &m : d) {
    double age = n - m.timestamp;
    if (std::abs(age - T) < 1e-7 || std::abs(age - T / 2) < 1e-7) { o.dec = -1; return o; }
    if (age < T / 2) nw.push_back(&m);
    else if (age < T) od.push_back(&m);
  }
  if (nw.size() < 2 || od.size() < 2) return o;
  auto dev = [](const std::vector<const Imu *> &v, V3 &am, V3 &wm) {
    Mat A(3, v.size()), W(3, v.size());
    for (size_t i = 0; i < v.size(); i++) { A.col(i) = v[i]->am; W.col(i) = v[i]->wm; }
    am = A.rowwise().mean();
    wm = W.rowwise().mean();
    return std::sqrt((A.colwise() - am).squaredNorm() / (v.size() - 1));
  };
  V3 a1, w1;
  double s1 = dev(nw, a1, w1), s2 = dev(od, o.a, o.w);
  o.t = od.back()->timestamp;
  if (std::abs(s1 - thr) < 1e-7 * (1 + thr) || std::abs(s2 - thr) < 1e-7 * (1 + thr)) { o.dec = -1; return o; }
  bool moved = s1 > thr, moved2 = s2 > thr;
  o.dec = (wait ? (moved && !moved2) : (!moved && !moved2)) ? 1 : 0;
  return o;
}
static void judge(const Out &o, const Want &w, double g, const std::string &d) {
  if (w.dec < 0) { count("not-judged"); return; }
  if (!check(o.ok == (w.dec == 1), w.dec ? "refused" : "accepted", d)) return;
  if (!o.ok) {
    check(o.x == sentinel() && o.f == sentinel() && o.t == -77 && o.order.empty() && o.P.rows() == 2 && (o.P.array() == 5).all(), "refusal-changed-outputs", d);
    count("refused");
    return;
  }
  count("accepted");
  check(o.t == w.t, "time", d + fmt(" %.9f wanted %.9f", o.t, w.t));
  M3 R = jpl2R(V4(o.x.topRows(4)));
  near(V4(o.x.topRows(4)).norm(), 1, 1e-10, "unit", d);
  near(V3(R * V3(0, 0, 1)), V3(w.a / w.a.norm()), 1e-9, "vertical", d);
  near(V3(o.x.block(4, 0, 3, 1)), V3::Zero(), 0, "position", d);
  near(V3(o.x.block(7, 0, 3, 1)), V3::Zero(), 0, "velocity", d);
  near(V3(o.x.block(10, 0, 3, 1)), w.w, 1e-9 * (1 + w.w.norm()), "gyro-bias", d);
  near(V3(o.x.block(13, 0, 3, 1)), V3(w.a - g * w.a / w.a.norm()), 1e-8 * (1 + w.a.norm()), "accel-bias", d);
  check(o.x == o.f, "first-estimate", d);
  check(o.order.size() == 1 && o.order[0] == std::static_pointer_cast<ov_type::Type>(o.imu), "order", d);
  if (check(o.P.rows() == 15 && o.P.cols() == 15, "covariance:size", d)) {
    check((o.P - o.P.transpose()).norm() < 1e-12 * o.P.norm(), "covariance:symmetric", d);
    Eigen::SelfAdjointEigenSolver<Mat> es(o.P);
    check(es.eigenvalues().minCoeff() > 1e-12 && es.eigenvalues().maxCoeff() < 1, "covariance:definite", d);
  }
}

static void one(long c, Rng &r) {
  ov_init::InertialInitializerOptions p;
  p.init_window_time = r.logu(0.3, 4);
  p.init_imu_thresh = r.logu(0.1, 3);
  p.gravity_mag = r.p(0.5) ? 9.81 : r.u(9.6, 9.9);
  p.init_dyn_use = false;
  p.calib_camimu_dt = r.p(0.5) ? 0 : r.u(-0.05, 0.05);
  double T = p.init_window_time;
  bool wait = r.p(0.5);
  int kind = r.i(0, 7);
  // 0 rest then move, 1 rest, 2 move, 3 move then rest, 4 short, 5 few readings, 6 rest then move with a long history, 7 marginal
  double rate = r.logu(60, 800);
  double len = kind == 4 ? T * r.u(0.1, 0.999) : T * r.u(1.001, kind == 6 ? 5 : 1.8);
  double base = r.p(0.2) ? 1.4e9 : r.u(T + 1, 200);
  V3 up = r.dir();
  if (r.p(0.3)) { up = V3::Zero(); up(r.i(0, 2)) = r.p(0.5) ? 1 : -1; if (r.p(0.5)) up = (up + r.vec(3, 1e-6)).normalized(); }
  V3 ba = r.vec(3, 0.2), bg = r.vec(3, 0.05);
  double rest = p.init_imu_thresh * r.u(0.05, 0.5) / std::sqrt(3.0), fast = p.init_imu_thresh * r.u(2, 20) / std::sqrt(3.0);
  if (kind == 7) { rest = p.init_imu_thresh * r.u(0.9, 1.1) / std::sqrt(3.0); fast = p.init_imu_thresh * r.u(0.9, 1.3) / std::sqrt(3.0); }
  Data d = std::make_shared<std::vector<Imu>>();
  double t = base - len, jump = base - T / 2 * r.u(0.6, 0.99);
  if (kind == 5) rate = r.u(0.3, 6) / T;
  while (t <= base) {
    Imu m;
    m.timestamp = t;
    bool mv = kind == 2 || ((kind == 0 || kind == 6 || kind == 7) && t > jump) || (kind == 3 && t < base - T / 2);
    double s = mv ? fast : rest;
    V3 n(r.n(1), r.n(1), r.n(1));
    m.am = p.gravity_mag * up + ba + s * n;
    m.wm = bg + (mv ? 0.3 : 0.003) * V3(r.n(1), r.n(1), r.n(1));
    d->push_back(m);
    t += r.u(0.7, 1.3) / rate;
  }
  if (r.p(0.05)) d->clear();
  if (r.p(0.05) && d->size() > 1) d->resize(1);
  std::string ds = fmt("kind %d wait %d T %.3f thr %.3f rate %.1f readings %d len %.3f dt %.3f", kind, wait, T, p.init_imu_thresh, rate, (int)d->size(), len, p.calib_camimu_dt);
  Want w = oracle(*d, T, p.init_imu_thresh, wait);
  auto direct = [&](Data q) {
    return run([&](Out &o) {
      auto db = std::make_shared<ov_core::FeatureDatabase>();
      ov_init::StaticInitializer s(p, db, q);
      return s.initialize(o.t, o.P, o.order, o.imu, wait);
    });
  };
  Out o = direct(d);
  judge(o, w, p.gravity_mag, ds);
  count(fmt("kind:%d:%s:%s", kind, wait ? "wait" : "now", w.dec < 0 ? "tie" : w.dec ? "accept" : "refuse"));
  distinct(fmt("%d:%d:%d:%d:%d:%d", kind, wait, w.dec, (int)std::log2(rate), (int)(2 * std::log2(T)), (int)(4 * up(2))));
  // only the readings of the window matter
  if (!d->empty()) {
    Data e = std::make_shared<std::vector<Imu>>(*d);
    int ch = 0;
    for (auto &m : *e)
      if (m.timestamp < d->back().timestamp - T - 1e-6) { m.am += r.vec(3, 5); m.wm += r.vec(3, 2); ch++; }
    // and anything older still
    if (d->back().timestamp - d->front().timestamp > T + 1e-6)
      for (int k = 0; k < 5; k++) { Imu m = e->front(); m.timestamp -= 0.01; m.am = r.vec(3, 20); m.wm = r.vec(3, 3); e->insert(e->begin(), m); ch++; }
    // the newest half only decides
    Out o2 = direct(e);
    if (ch && w.dec >= 0) {
      check(o2.ok == o.ok && (!o.ok || (o2.t == o.t && o2.x == o.x && o2.P == o.P)), "outside-window", ds);
      count("outside");
    }
    Out o3 = direct(d);
    check(o3.ok == o.ok && o3.t == o.t && o3.x == o.x && o3.P.rows() == o.P.rows() && o3.P == o.P, "repeat", ds);
  }
  // through the front door: image motion has its say too
  if (r.p(0.5)) {
    ov_init::InertialInitializerOptions q = p;
    int dm = r.i(0, 9);
    q.init_max_disparity = dm == 0 ? 0 : dm == 1 ? -1 : r.u(3, 20);
    if (r.p(0.1)) q.init_imu_thresh = r.p(0.5) ? 0 : -1;
    double newcam = d->empty() ? base : d->back().timestamp - q.calib_camimu_dt - r.u(0, 0.02);
    auto db = std::make_shared<ov_core::FeatureDatabase>();
    bool mo = r.p(0.5) ? kind == 2 || kind == 3 : r.p(0.5), mn = r.p(0.5) ? kind == 0 || kind == 2 || kind == 6 : r.p(0.5); // moving in the older, newer half
    int nf = r.p(0.15) ? r.i(0, 14) : r.i(15, 60);
    double dd = std::max(1.0, q.init_max_disparity);
    double so = dd * (mo ? r.u(1.3, 3) : r.u(0, 0.7)), sn = dd * (mn ? r.u(1.3, 3) : r.u(0, 0.7));
    int nfr = r.i(12, 30);
    double tot = T * r.u(1.0, 1.6);
    for (int f = 0; f < nf; f++) {
      Eigen::Vector2d dir(r.n(1), r.n(1));
      dir.normalize();
      Eigen::Vector2d at(r.u(100, 500), r.u(100, 400));
      for (int k = 0; k < nfr; k++) {
        double age = tot * (nfr - 1 - k) / (nfr - 1.0);
        // an offset per half: zero at the half's first usable frame, the full motion after it
        double a = age > T / 2 ? 0 : 0;
        (void)a;
        double x = 0;
        // alternate between two places, the last usable frame of each half being at the far one
        bool old = age >= T / 2 - 1e-9;
        if (old) x = age <= T + 0.1 ? so * std::min(1.0, (T + 0.1 - age) / (T / 2 + 0.1)) : 0;
        else x = so + sn * (T / 2 - age) / (T / 2);
        float u = at(0) + x * dir(0), v = at(1) + x * dir(1);
        db->update_feature(f + 1, newcam - age, 0, u, v, 0.f, 0.f);
      }
    }
    // the image motion the statistics will see, from the stored tracks
    double lim = newcam - T / 2;
    auto disp = [&](double lo, double hi, int &n) {
      double s = 0;
      n = 0;
      for (int f = 0; f < nf; f++) {
        auto F = db->get_feature(f + 1);
        auto &ts = F->timestamps.at(0);
        int i0 = -1, i1 = -1;
        for (int k = 0; k < (int)ts.size(); k++) {
          if (ts[k] < newcam - T - 0.1) continue;
          if (ts[k] <= lo) continue;
          if (i0 < 0) { i0 = k; continue; }
          if (ts[k] < hi) i1 = k;
        }
        if (i0 < 0 || i1 < 0) continue;
        s += (F->uvs.at(0)[i1] - F->uvs.at(0)[i0]).head(2).cast<double>().norm();
        n++;
      }
      return n ? s / n : 0.0;
    };
    int n0 = 0, n1 = 0;
    double d0 = disp(-1e18, lim, n0), d1 = disp(lim, newcam, n1);
    bool use = q.init_max_disparity > 0;
    bool m0 = use && d0 > q.init_max_disparity, m1 = use && d1 > q.init_max_disparity;
    bool tie = use && (std::abs(d0 - q.init_max_disparity) < 1e-3 || std::abs(d1 - q.init_max_disparity) < 1e-3);
    for (int k = 0; k < nfr; k++) { double age = tot * (nfr - 1 - k) / (nfr - 1.0); if (std::abs(age - T / 2) < 1e-9 || std::abs(age - T - 0.1) < 1e-9) tie = true; }
    // the readings the initializer keeps
    Data k = std::make_shared<std::vector<Imu>>();
    bool edge = false;
    for (auto &m : *d) {
      double x = m.timestamp - (newcam - T - 0.1 + q.calib_camimu_dt);
      if (std::abs(x) < 1e-7) edge = true;
      if (x >= 0) k->push_back(m);
    }
    Want v;
    v.dec = 0;
    bool gate = nf > 0 && newcam - T - 0.1 >= 0 && q.init_imu_thresh > 0;
    if (use) gate &= n0 >= 15 && n1 >= 15 && (wait ? (!m0 && m1) : (!m0 && !m1));
    if (gate) v = oracle(*k, T, q.init_imu_thresh, wait);
    if (tie || edge) v.dec = -1;
    std::string s2 = ds + fmt(" through the front: disparity %.2f %.2f of %.2f, tracks %d %d, threshold %.2f, frames %d", d0, d1, q.init_max_disparity, n0, n1, q.init_imu_thresh, nfr);
    ov_init::InertialInitializer in(q, db);
    for (auto &m : *d) in.feed_imu(m, r.p(0.5) ? -1 : m.timestamp - 3 * T);
    Out o4 = run([&](Out &o) { return in.initialize(o.t, o.P, o.order, o.imu, wait); });
    judge(o4, v, q.gravity_mag, s2);
    count("front");
    if (v.dec == 1) count(use ? "front:accept" : "front:accept-no-disparity");
    if (v.dec == 0) count(use && gate ? "front:refuse-readings" : "front:refuse-images");
    distinct(fmt("f:%d:%d:%d:%d:%d:%d", wait, use, m0, m1, v.dec, kind));
  }
  if (c < 3) sample(ds);
}
int main(int argc, char **argv) {
  init(argc, argv);
  ov_core::Printer::setPrintLevel("SILENT");
  run_cases(ctx().a.thorough() ? 200000 : 6000, one);
  return finish();
}
