// S18: the real estimator on streams full of faults.
#include "vpipe.h"
using namespace vsys;

/// everything that must stay as it is
struct Snap {
  std::vector<Mat> v, f;
  Mat P;
  double t;
  std::vector<double> clones;
  std::vector<size_t> marks;
  explicit Snap(const SP &s) : t(s->_timestamp) {
    auto a = variables(s);
    for (auto &x : a) { v.push_back(x->value()); f.push_back(x->fej()); }
    P = cov_of(s, a);
    for (auto &c : s->_clones_IMU) clones.push_back(c.first);
    for (auto &l : s->_features_SLAM) marks.push_back(l.first);
    std::sort(marks.begin(), marks.end());
  }
  bool operator==(const Snap &o) const {
    if (!(t == o.t && clones == o.clones && marks == o.marks && v.size() == o.v.size() && P.rows() == o.P.rows())) return false;
    for (size_t i = 0; i < v.size(); i++) if (v[i].rows() != o.v[i].rows() || v[i] != o.v[i] || f[i] != o.f[i]) return false;
    return P == o.P;
  }
};

static void wild(Rng &r, Eigen::VectorXf &uv) {
  switch (r.i(0, 7)) {
  case 0: uv << r.u(0, 752), r.u(0, 480); break;
  case 1: uv << r.u(-1e3, 2e3), r.u(-1e3, 2e3); break;
  case 2: uv << r.u(-1e6, 1e6), r.u(-1e6, 1e6); break;
  case 3: uv << (r.p(0.5) ? 1e30f : -1e30f), r.u(0, 480); break;
  case 4: uv << 0, 0; break;
  case 5: uv << -1, -1; break;
  case 7: uv(r.i(0, 1)) = r.p(0.5) ? NAN : INFINITY; break;
  default: uv(r.i(0, 1)) += (r.p(0.5) ? 1 : -1) * r.logu(1, 1e4);
  }
}

static void one(long c, Rng &r) {
  Opt o = filter_options(r, 0, true, 0.5);
  if (r.p(0.2)) { o.calib_camimu_dt = r.u(-0.3, 0.3); copy_init(o); }
  o.try_zupt = r.p(0.3);
  if (o.try_zupt) {
    o.zupt_max_velocity = r.p(0.5) ? 0.1 : 10;
    o.zupt_noise_multiplier = r.logu(1, 100);
    o.zupt_options.chi2_multipler = r.logu(1, 1e6);
    o.zupt_max_disparity = r.p(0.5) ? 0 : r.logu(1, 100);
    o.zupt_only_at_beginning = r.p(0.4);
  }
  Motion m(r, r.u(0.5, 2), r.u(0.2, 0.7), r.u(0, 0.5));
  Rng e(r.i(0, 1 << 30));
  Pipe p(o, m, r.u(8, 11), &e);
  if (p.start < 0) {
    if (std::abs(o.calib_camimu_dt) < 0.05) fail("start", name(o));
    else count("no-start");
    return;
  }
  SP s = p.s();
  int menu = 1 + r.i(0, 1023); // faults this run may inject
  int imu_menu = r.i(0, 15);
  double rate = r.u(0.1, 0.6);
  int first = r.i(2, 25), last = first + r.i(5, 40);
  std::string info = name(o) + fmt(" zupt%d faults%d/%d rate%.2f frames%d-%d", o.try_zupt, menu, imu_menu, rate, first, last);
  distinct(info);
  std::vector<double> readings;
  double prev = -1, lost_until = -1, used = p.given.calib_camimu_dt, imu_seen = -1;
  long n = 0;
  bool bad = false;
  std::string what = "none";
  auto imu = [&](const ov_core::ImuData &x) {
    imu_seen = x.timestamp;
    bool on = n >= first && n < last;
    ov_core::ImuData d = x;
    if (d.timestamp < lost_until) { count("imu:dropped"); return; }
    if (on && (imu_menu & 1) && r.p(0.01)) { lost_until = d.timestamp + r.logu(0.001, 0.3); count("imu:dropped"); return; }
    if (on && (imu_menu & 2)) { d.timestamp += r.u(-0.4, 0.4) / o.sim_freq_imu; count("imu:jittered"); }
    if (d.timestamp < prev) d.timestamp = prev;
    prev = d.timestamp;
    int times = on && (imu_menu & 4) && r.p(0.1) ? r.i(2, 3) : 1;
    for (int i = 0; i < times; i++) {
      if (i) {
        count("imu:repeated");
        if (r.p(0.3)) { d.wm += r.v3(0.01); d.am += r.v3(0.1); }
      }
      p.vio->feed_measurement_imu(d);
      readings.push_back(d.timestamp);
    }
  };
  /// readings on both sides of the interval the next propagation asks for
  auto covered = [&](double t) {
    double a = s->_timestamp + used, b = t + s->_calib_dt_CAMtoIMU->value()(0);
    if (t <= s->_timestamp) return true;
    if (readings.empty()) return b < p.start + 0.09; // those the pipe handed in before
    bool after = readings.back() > b + 0.02;
    return after && b > a;
  };
  auto give = [&](const Frame &f, const std::string &k) {
    Snap b(s);
    what = k;
    count("frame:" + k);
    double t0 = s->_timestamp, d = s->_calib_dt_CAMtoIMU->value()(0);
    p.feed(f);
    std::string at = info + fmt(" frame %ld %s at %.6f", n, k.c_str(), f.t);
    if (f.t < t0) bad |= !check(Snap(s) == b, "older:changed", at);
    else bad |= !check(s->_timestamp == f.t, "time:frame", at + fmt(" filter at %.9f", s->_timestamp));
    if (f.t > t0) used = d;
    bad |= !check(s->_timestamp >= t0, "time:back", at);
    bad |= !sane(*p.vio, at);
    if (r.p(0.2)) {
      double ta;
      std::unordered_map<size_t, V3> pos, uvd;
      p.vio->get_active_tracks(ta, pos, uvd);
      for (auto &x : p.vio->get_good_features_MSCKF()) bad |= !check(x.allFinite(), "reported:finite", at);
      for (auto &x : p.vio->get_features_SLAM()) bad |= !check(x.allFinite(), "reported:finite", at);
      for (auto &x : pos) bad |= !check(x.second.allFinite(), "reported:finite", at);
    }
    if (r.p(0.2) && p.vio->initialized()) {
      Eigen::Matrix<double, 13, 1> x;
      Eigen::Matrix<double, 12, 12> P;
      double t = prev + r.u(-0.05, 0.05);
      Snap b2(s);
      if (p.vio->get_propagator()->fast_state_propagate(s, t, x, P)) {
        count("fast");
        bad |= !check(x.allFinite() && P.allFinite(), "fast:finite", at);
      }
      bad |= !check(Snap(s) == b2, "fast:changed", at);
    }
  };
  Frame f;
  std::vector<Frame> seen;
  size_t fresh = 1000000;
  long after = 0, moved = 0;
  auto next = [&]() { return p.next(f, imu); };
  while (!bad && next()) {
    if (f.t <= s->_timestamp + 0.001) continue;
    n++;
    bool on = n >= first && n < last;
    if (!covered(f.t)) { count("frame:uncovered"); continue; }
    Frame g = f;
    std::string k = "plain";
    if (on && r.p(rate)) {
      int kind = r.i(0, 9);
      if (menu >> kind & 1) switch (kind) {
        case 0: { // older frames, some with measurements for current tracks, some at the time of a clone
          int times = r.i(1, 3);
          for (int i = 0; i < times && !bad && !seen.empty(); i++) {
            Frame h = r.p(0.5) ? seen[r.i(0, (int)seen.size() - 1)] : f;
            if (h.t >= s->_timestamp) h.t = s->_timestamp - (r.p(0.3) ? r.logu(1e-9, 1e-3) : r.u(0.001, 2));
            if (h.t < s->_timestamp) give(h, "older");
          }
          break;
        }
        case 1: { // the last one again
          int times = r.i(1, 3);
          for (int i = 0; i < times && !bad && !seen.empty(); i++) {
            Frame h = seen.back();
            h.t = s->_timestamp;
            if (r.p(0.3)) h.f = f.f, h.ids = f.ids;
            if (h.t > p.start) give(h, "repeated");
          }
          break;
        }
        case 2: for (auto &x : g.f) x.clear(); k = "empty"; break;
        case 3: { // a gap
          double until = f.t + (r.p(0.2) ? r.u(1, 3) : r.u(0.1, 0.8));
          bool ok = true;
          while (f.t < until && (ok = next())) {}
          if (!ok || !covered(f.t)) continue;
          g = f;
          k = "gap";
          break;
        }
        case 4: // part of the cameras, or in another order
          if (g.ids.size() > 1) {
            if (r.p(0.5)) { int i = r.i(0, (int)g.ids.size() - 1); g.ids = {g.ids[i]}; g.f = {Feats(g.f)[i]}; k = "one-camera"; }
            else { std::reverse(g.ids.begin(), g.ids.end()); std::reverse(g.f.begin(), g.f.end()); k = "reversed"; }
          }
          break;
        case 5: // unknown identities
          for (auto &x : g.f) for (auto &y : x) if (r.p(0.8)) y.first = fresh++;
          k = "unknown";
          break;
        case 6: { // exchanged or doubled identities
          for (auto &x : g.f) {
            for (size_t i = 0; i + 1 < x.size(); i++) if (r.p(0.4)) std::swap(x[i].first, x[r.i(0, (int)x.size() - 1)].first);
            if (!x.empty() && r.p(0.5)) for (int i = 0; i < 3; i++) x[r.i(0, (int)x.size() - 1)].first = x[0].first;
          }
          k = "exchanged";
          break;
        }
        case 7: { // wild pixels
          double share = r.p(0.3) ? 1 : r.u(0.05, 0.7);
          for (auto &x : g.f) for (auto &y : x) if (r.p(share)) wild(r, y.second);
          k = "wild";
          break;
        }
        case 8: { // hardly later than the last one
          Frame h = f;
          h.t = s->_timestamp + r.logu(1e-7, 5e-3);
          if (h.t < f.t && covered(h.t)) { give(h, "close"); if (bad) break; }
          if (f.t <= s->_timestamp) continue;
          break;
        }
        case 9: // frozen pixels: the picture of before
          if (!seen.empty()) { g.f = seen.back().f; g.ids = seen.back().ids; k = "frozen"; }
          break;
      }
      if (bad) break;
    }
    if (!covered(g.t)) { count("frame:uncovered"); continue; }
    double t0 = s->_timestamp;
    give(g, k);
    seen.push_back(g);
    if (bad) break;
    if (n >= last) {
      after++;
      if (s->_timestamp > t0) moved++;
      if (after > o.state_options.max_clone_size + 3) {
        count("recovered:frames");
        if (!p.vio->get_good_features_MSCKF().empty() || !s->_features_SLAM.empty()) count("recovered:uses");
        if (!o.try_zupt && (int)s->_clones_IMU.size() == o.state_options.max_clone_size) {
          // nothing is kept that no pose of the window belongs to
          double old = s->_clones_IMU.begin()->first;
          for (auto &x : p.vio->db()->get_internal_data())
            for (auto &y : x.second->timestamps)
              for (double t : y.second)
                if (t < old) { check(false, "database:stale", info + fmt(" feature %zu measured at %.6f, window from %.6f", x.first, t, old)); bad = true; goto out; }
          count("database");
        }
      }
    }
  }
out:
  count("after", after);
  if (!bad) check(moved == after, "stuck", info);
  if (after > 0) count("ended");
  sample(fmt("{\"run\": \"%s\", \"frames\": %ld, \"after\": %ld}", info.c_str(), n, after));
}
int main(int argc, char **argv) {
  init(argc, argv);
  ov_core::Printer::setPrintLevel(getenv("VP_PRINT") ? "ALL" : "SILENT");
  run_cases(ctx().a.thorough() ? 12000 : 800, one);
  return finish();
}
