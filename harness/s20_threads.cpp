// S20: the multi-threaded mode under the race detector, results compared with one-threaded runs.
#include "init/InertialInitializer.h"
#include "track/TrackAruco.h"
#include "track/TrackDescriptor.h"
#include "track/TrackKLT.h"
#include "update/UpdaterZeroVelocity.h"
#include "vpipe.h"
#include <atomic>
#include <opencv2/aruco.hpp>
#include <opencv2/opencv.hpp>
#include <thread>
using namespace vsys;
using ov_core::CameraData;

// The library's own pool is not visible to the race detector: run parallel loops on threads it sees.
static thread_local int g_depth = 0;
namespace cv {
void parallel_for_(const Range &range, const ParallelLoopBody &body, double) {
  int n = range.end - range.start, k = std::min(n, 3);
  if (k < 2 || g_depth > 0) { if (n > 0) body(range); return; }
  std::vector<std::thread> th;
  for (int i = 0; i < k; i++) th.emplace_back([&, i] { g_depth++; body(Range(range.start + n * i / k, range.start + n * (i + 1) / k)); });
  for (auto &t : th) t.join();
}
} // namespace cv

// The background initialization is slowed down where it hands over to the image callback (linked with --wrap; weak, so
// that other signatures only leave the pauses out).
static thread_local bool g_background = false;
static std::atomic<int> g_slow{0};
#define WRAP_INIT _ZN7ov_init19InertialInitializer10initializeERdRN5Eigen6MatrixIdLin1ELin1ELi0ELin1ELin1EEERSt6vectorISt10shared_ptrIN7ov_type4TypeEESaISA_EES7_INS8_3IMUEEb
#define WRAP_PROP _ZN8ov_msckf10Propagator19propagate_and_cloneESt10shared_ptrINS_5StateEEd
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
extern "C" {
bool CAT(__real_, WRAP_INIT)(ov_init::InertialInitializer *, double &, Eigen::MatrixXd &, std::vector<std::shared_ptr<ov_type::Type>> &, std::shared_ptr<ov_type::IMU>, bool) __attribute__((weak));
void CAT(__real_, WRAP_PROP)(ov_msckf::Propagator *, std::shared_ptr<ov_msckf::State>, double) __attribute__((weak));
bool CAT(__wrap_, WRAP_INIT)(ov_init::InertialInitializer *z, double &t, Eigen::MatrixXd &P, std::vector<std::shared_ptr<ov_type::Type>> &o, std::shared_ptr<ov_type::IMU> i, bool w) {
  bool ok = CAT(__real_, WRAP_INIT)(z, t, P, o, i, w);
  if (g_slow) { g_background = true; usleep((ok ? 1000 : 100) * g_slow); }
  return ok;
}
void CAT(__wrap_, WRAP_PROP)(ov_msckf::Propagator *p, std::shared_ptr<ov_msckf::State> s, double t) {
  if (g_background) { usleep(500 * g_slow); vh::count("boot:moved-forward"); }
  CAT(__real_, WRAP_PROP)(p, s, t);
}
}

struct Crew { // threads that start together
  std::vector<std::thread> th;
  std::atomic<int> waiting{0};
  std::atomic<bool> go{false}, done{false};
  void add(std::function<void()> f) { th.emplace_back([this, f] { waiting++; while (!go) std::this_thread::yield(); f(); }); }
  void run() { while (waiting < (int)th.size()) std::this_thread::yield(); go = true; }
  ~Crew() { for (auto &t : th) if (t.joinable()) t.join(); }
  void join() { for (auto &t : th) t.join(); }
};
static void nap(Rng &q) { if (q.p(0.3)) std::this_thread::yield(); else if (q.p(0.2)) usleep(q.i(1, 400)); }

// --------------------------------------------------------------- images
struct Scene {
  cv::Mat big;
  Scene(Rng &r, int w, int h) {
    cv::Mat s(h, w, CV_8UC1);
    uint32_t x = (uint32_t)r.i(1, 1 << 30);
    for (int i = 0; i < h * w; i++) { x = x * 1664525u + 1013904223u; s.data[i] = (uchar)(x >> 24); }
    cv::GaussianBlur(s, big, cv::Size(0, 0), 1.6);
    cv::normalize(big, big, 0, 255, cv::NORM_MINMAX);
  }
  cv::Mat view(double x, double y, int w, int h) const { cv::Mat o; cv::getRectSubPix(big, cv::Size(w, h), cv::Point2f(x + w / 2.0f, y + h / 2.0f), o); return o; }
};
static void tags(Rng &r, cv::Mat &m, int n) {
#if CV_MAJOR_VERSION > 4 || (CV_MAJOR_VERSION == 4 && CV_MINOR_VERSION >= 7)
  cv::aruco::Dictionary d = cv::aruco::getPredefinedDictionary(cv::aruco::DICT_6X6_1000);
  auto draw = [&](int id, cv::Mat &o) { cv::aruco::generateImageMarker(d, id, 60, o); };
#else
  auto d = cv::aruco::getPredefinedDictionary(cv::aruco::DICT_6X6_1000);
  auto draw = [&](int id, cv::Mat &o) { cv::aruco::drawMarker(d, id, 60, o); };
#endif
  for (int i = 0; i < n; i++) {
    cv::Mat t, w(90, 90, CV_8UC1, cv::Scalar(255));
    draw(5 * i + r.i(0, 4), t); // each tag once, as in the real world
    t.copyTo(w(cv::Rect(15, 15, 60, 60)));
    int x = r.i(5, m.cols - 95), y = r.i(5, m.rows - 95);
    w.copyTo(m(cv::Rect(x, y, 90, 90)));
  }
}
static std::unordered_map<size_t, std::shared_ptr<ov_core::CamBase>> cameras(Rng &r, int n, int w, int h) {
  std::unordered_map<size_t, std::shared_ptr<ov_core::CamBase>> o;
  for (int i = 0; i < n; i++) {
    std::shared_ptr<ov_core::CamBase> c;
    if (r.p(0.5)) c = std::make_shared<ov_core::CamEqui>(w, h); else c = std::make_shared<ov_core::CamRadtan>(w, h);
    Eigen::VectorXd v(8);
    v << 200, 200, w / 2.0, h / 2.0, 0.01, -0.01, 0.001, 0.001;
    c->set_value(v);
    o.insert({(size_t)i, c});
  }
  return o;
}
typedef std::tuple<size_t, size_t, long> Key; // feature, camera, frame
static void tracker(long c, Rng &r) {
  int kind = r.i(0, 2), ncam = r.i(1, 3), w = 320, h = 240, frames = r.i(6, 12);
  bool stereo = ncam == 2 && r.p(0.5), rename = r.p(0.3);
  auto cams = cameras(r, ncam, w, h);
  auto hist = (ov_core::TrackBase::HistogramMethod)r.i(0, 2);
  std::shared_ptr<ov_core::TrackBase> t;
  int nf = r.i(20, 60);
  if (kind == 0) t = std::make_shared<ov_core::TrackKLT>(cams, nf, 10, stereo, hist, 10, r.i(2, 5), r.i(2, 5), r.i(5, 12));
  else if (kind == 1) t = std::make_shared<ov_core::TrackDescriptor>(cams, nf, 10, stereo, hist, 10, r.i(2, 5), r.i(2, 5), r.i(5, 12), 0.8);
  else t = std::make_shared<ov_core::TrackAruco>(cams, 30, false, hist, r.p(0.3));
  Scene sc(r, 440, 320);
  if (kind == 2) tags(r, sc.big, 4);
  std::vector<CameraData> all;
  double x = 30, y = 30;
  for (int k = 0; k < frames; k++) {
    CameraData m;
    m.timestamp = k + 1;
    for (int i = 0; i < ncam; i++) {
      m.sensor_ids.push_back(i);
      m.images.push_back(sc.view(x + 3 * i, y + (stereo ? 0 : i), w, h));
      m.masks.push_back(cv::Mat::zeros(h, w, CV_8UC1));
    }
    all.push_back(m);
    x += r.u(-3, 4); y += r.u(-3, 3);
    x = std::min(60.0, std::max(10.0, x)); y = std::min(50.0, std::max(10.0, y));
  }
  auto db = t->get_feature_database();
  auto other = std::make_shared<ov_core::FeatureDatabase>();
  std::atomic<bool> done{false};
  std::atomic<int> at{0};
  std::map<Key, int> expected, got;
  std::vector<std::shared_ptr<ov_core::Feature>> removed;
  std::vector<uint64_t> seeds;
  for (int i = 0; i < 6; i++) seeds.push_back(r.g());
  Crew crew;
  crew.add([&] { // the camera callback
    Rng q(seeds[0]);
    std::unordered_map<size_t, std::vector<size_t>> before;
    for (auto &m : all) {
      t->feed_new_camera(m);
      auto ids = t->get_last_ids();
      auto obs = t->get_last_obs();
      if (rename && q.p(0.5)) for (auto &i : ids) if (!i.second.empty()) t->change_feat_id(i.second[q.i(0, i.second.size() - 1)], 1000000 + q.i(0, 1 << 28));
      bool any = false; // images without earlier points only start the tracks
      std::map<size_t, bool> had;
      for (auto &i : ids) { had[i.first] = !before[i.first].empty(); any |= had[i.first]; }
      before = ids;
      if (!rename) for (auto &i : ids) {
        if (kind != 2 && !(stereo ? any : had[i.first])) continue;
        check(obs[i.first].size() == i.second.size(), "tracker:sizes");
        for (auto &id : i.second) expected[Key(id, i.first, (long)m.timestamp)]++;
      }
      at++;
      nap(q);
    }
    done = true;
  });
  for (int k = 0; k < 2; k++) crew.add([&, k] { // visualization and queries
    Rng q(seeds[1 + k]);
    cv::Mat a, b;
    while (!done) {
      int what = q.i(0, 6);
      if (what == 0) t->display_active(a, 255, 0, 0, 0, 255, 0, q.p(0.5) ? "" : "x");
      else if (what == 1) t->display_history(b, 255, 0, 0, 0, 255, 0, {1, 50}, "");
      else if (what == 2) { for (auto &o : t->get_last_obs()) for (auto &p : o.second) check(std::isfinite(p.pt.x), "tracker:torn"); }
      else if (what == 3) { for (auto &o : t->get_last_ids()) for (auto &i : o.second) { ov_core::Feature f; if (db->get_feature_clone(i, f)) for (auto &c : f.timestamps) check(c.second.size() == f.uvs.at(c.first).size(), "tracker:torn-copy"); } }
      else if (what == 4) t->set_num_features(nf + q.i(-5, 5));
      else if (what == 5) { check(t->get_num_features() >= 0, "tracker:num"); db->size(); db->get_oldest_timestamp(); }
      else { ov_core::FeatureDatabase mine; mine.append_new_measurements(other); mine.size(); other->get_oldest_timestamp(); }
      count("queries");
      nap(q);
    }
  });
  crew.add([&] { // the update takes features out
    Rng q(seeds[3]);
    while (!done) {
      int k = at;
      std::vector<std::shared_ptr<ov_core::Feature>> v = q.p(0.5) ? db->features_not_containing_newer(k + 0.5, true, true) : db->features_containing_older(std::max(0.0, k - 3.0), true, true);
      if (q.p(0.3)) v = [&] { auto o = v; auto p = db->features_containing(std::max(1, k - 1), true, true); o.insert(o.end(), p.begin(), p.end()); return o; }();
      removed.insert(removed.end(), v.begin(), v.end());
      if (q.p(0.2)) db->cleanup();
      if (q.p(0.2)) other->append_new_measurements(db);
      if (rename && q.p(0.3)) db->cleanup_measurements(k - q.i(1, 5));
      if (rename && q.p(0.3)) db->cleanup_measurements_exact(k - 1);
      usleep(q.i(50, 3000));
    }
  });
  crew.run();
  crew.join();
  long n = 0;
  if (!rename) {
    auto take = [&](const ov_core::Feature &f) { for (auto &c : f.timestamps) for (auto &s : c.second) { got[Key(f.featid, c.first, (long)s)]++; n++; } };
    for (auto &f : removed) take(*f);
    for (auto &f : db->get_internal_data()) take(*f.second);
    long lost = 0, extra = 0, twice = 0;
    for (auto &e : expected) { if (!got.count(e.first)) lost++; else if (got[e.first] > 1) twice++; if (e.second > 1) twice++; }
    for (auto &g : got) if (!expected.count(g.first)) extra++;
    check(lost == 0 && extra == 0 && twice == 0, "tracker:conservation", fmt("kind%d cams%d stereo%d: %zu tracked, %ld lost, %ld extra, %ld repeated", kind, ncam, stereo, expected.size(), lost, extra, twice));
  }
  count("tracker:measurements", n);
  count(fmt("tracker:%d", kind));
  if (ncam > 1 && !stereo) count("tracker:parallel");
  distinct(fmt("tracker %d %d %d %d %d", kind, ncam, stereo, (int)hist, rename));
}

// --------------------------------------------------------------- inertial readings
static std::vector<Imu> readings(Rng &r, double t0, double dur, double rate, bool rest) {
  std::vector<Imu> v;
  V3 a = r.v3(1), w = r.v3(0.3), ph = r.box(3);
  for (double t = t0; t < t0 + dur; t += 1 / rate) {
    Imu d;
    d.timestamp = t;
    d.wm = rest ? r.v3(1e-4) : V3(w + 0.2 * V3(std::sin(3 * t + ph(0)), std::cos(2 * t + ph(1)), std::sin(t + ph(2))));
    d.am = V3(0, 0, 9.81) + (rest ? r.v3(1e-3) : V3(a + 0.5 * V3(std::cos(2 * t + ph(2)), std::sin(3 * t + ph(0)), std::sin(2 * t))));
    v.push_back(d);
  }
  return v;
}
static ov_msckf::NoiseManager noises() {
  ov_msckf::NoiseManager n;
  n.sigma_w_2 = n.sigma_w * n.sigma_w; n.sigma_a_2 = n.sigma_a * n.sigma_a; n.sigma_wb_2 = n.sigma_wb * n.sigma_wb; n.sigma_ab_2 = n.sigma_ab * n.sigma_ab;
  return n;
}
static bool same(const SP &a, const SP &b) {
  auto x = variables(a), y = variables(b);
  if (x.size() != y.size() || a->_timestamp != b->_timestamp || a->_clones_IMU.size() != b->_clones_IMU.size()) return false;
  auto ia = a->_clones_IMU.begin();
  for (auto &c : b->_clones_IMU) { if (ia->first != c.first || Mat(ia->second->value()) != Mat(c.second->value())) return false; ++ia; }
  return Mat(a->_imu->value()) == Mat(b->_imu->value()) && ov_msckf::StateHelper::get_full_covariance(a) == ov_msckf::StateHelper::get_full_covariance(b);
}
static void prop(long c, Rng &r) {
  Rng r2 = r;
  SO o = rand_options(r);
  rand_options(r2);
  SP s[2];
  { Rng a = r, b = r; s[0] = make_state(o, a); s[1] = make_state(o, b); r = a; }
  double t0 = r.u(1, 100), rate = r.u(100, 300), dur = r.u(1, 2.5);
  auto d = readings(r, t0 - 0.1, dur, rate, false);
  std::vector<double> times;
  for (double t = t0 + 0.05; t < t0 + dur - 0.25; t += r.u(0.03, 0.12)) times.push_back(t);
  uint64_t s0 = r.g(), s1 = r.g();
  for (int k = 0; k < 2; k++) {
    s[k]->_timestamp = t0;
    auto n = noises();
    ov_msckf::Propagator p(n, 9.81);
    std::atomic<double> fed{-1};
    std::atomic<bool> done{false};
    auto feed = [&](const Imu &m) {
      double old = s[k]->margtimestep();
      p.feed_imu(m, old == INFINITY ? -1 : old - 0.05);
      fed = m.timestamp;
    };
    auto update = [&](double t) { p.propagate_and_clone(s[k], t); ov_msckf::StateHelper::marginalize_old_clone(s[k]); p.invalidate_cache(); p.clean_old_imu_measurements(s[k]->margtimestep() - 0.15); };
    if (k == 0) {
      size_t i = 0;
      for (double t : times) { while (i < d.size() && d[i].timestamp <= t + 0.05) feed(d[i++]); update(t); }
    } else {
      Crew crew;
      crew.add([&] { Rng q(s0); for (auto &m : d) { feed(m); nap(q); } });
      crew.add([&] { Rng q(s1); for (double t : times) { while (fed <= t + 0.05) std::this_thread::yield(); update(t); nap(q); } done = true; });
      crew.add([&] { Rng q(s1 + 1); while (!done) { double m = s[k]->margtimestep(); check(m == INFINITY || (m >= t0 && m < t0 + dur), "window:torn"); nap(q); } });
      crew.run();
      crew.join();
    }
  }
  check(same(s[0], s[1]), "propagation:same", fmt("%zu readings, %zu clones: %s and %s", d.size(), times.size(), str(s[0]->_imu->value()).c_str(), str(s[1]->_imu->value()).c_str()));
  count("propagations", times.size());
  distinct(fmt("prop %s %d", optname(o).c_str(), (int)(rate / 50)));
}
static void fast(long c, Rng &r) {
  SO o = rand_options(r);
  auto s = make_state(o, r);
  double t0 = r.u(1, 100);
  s->_timestamp = t0;
  auto d = readings(r, t0 - 0.1, 1.5, r.u(100, 300), false);
  auto n = noises();
  ov_msckf::Propagator p(n, 9.81), ref(n, 9.81);
  for (auto &m : d) ref.feed_imu(m);
  std::atomic<double> fed{-1};
  std::atomic<bool> done{false};
  uint64_t s0 = r.g();
  Crew crew;
  crew.add([&] { Rng q(s0); for (auto &m : d) { p.feed_imu(m, t0 - 0.05); fed = m.timestamp; nap(q); } done = true; });
  crew.add([&] { Rng q(s0 + 1); while (!done) { p.invalidate_cache(); if (q.p(0.3)) p.clean_old_imu_measurements(t0 - 0.03); nap(q); usleep(50); } });
  crew.add([&] {
    Rng q(s0 + 2);
    Eigen::Matrix<double, 13, 1> x;
    Eigen::Matrix<double, 12, 12> P;
    while (!done) {
      double t = fed;
      if (t > t0 + 0.1 && p.fast_state_propagate(s, t - 0.01, x, P)) { count("fast"); check(x.allFinite() && P.allFinite(), "fast:finite"); }
      nap(q);
    }
  });
  crew.run();
  crew.join();
  Eigen::Matrix<double, 13, 1> x, y;
  Eigen::Matrix<double, 12, 12> P, Q;
  double t = d.back().timestamp - 0.02;
  p.invalidate_cache();
  bool a = p.fast_state_propagate(s, t, x, P), b = ref.fast_state_propagate(s, t, y, Q);
  check(a && b && x == y && P == Q, "fast:same", fmt("%d %d %s %s", a, b, str(x).c_str(), str(y).c_str()));
  distinct("fast " + optname(o));
}
static void zupt(long c, Rng &r) {
  SO o = rand_options(r);
  o.do_calib_camera_timeoffset = false;
  SP s[2];
  { Rng a = r, b = r; s[0] = make_state(o, a); s[1] = make_state(o, b); r = a; }
  double t0 = r.u(1, 100), dur = r.u(0.8, 2);
  auto d = readings(r, t0 - 0.1, dur, r.u(100, 250), true);
  for (int k = 0; k < 2; k++) { // upright, without calibration errors
    Mat x = s[k]->_imu->value();
    x.block(0, 0, 4, 1) << 0, 0, 0, 1;
    x.block(7, 0, 9, 1).setZero();
    set_both(s[k]->_imu, x);
    ov_msckf::StateHelper::set_initial_covariance(s[k], Mat(1e-3 * Mat::Identity(15, 15)), {s[k]->_imu});
  }
  std::vector<double> times;
  for (double t = t0 + 0.05; t < t0 + dur - 0.25; t += r.u(0.03, 0.12)) times.push_back(t);
  uint64_t s0 = r.g();
  std::vector<int> dec[2];
  for (int k = 0; k < 2; k++) {
    s[k]->_timestamp = t0;
    auto n = noises();
    auto p = std::make_shared<ov_msckf::Propagator>(n, 9.81);
    auto db = std::make_shared<ov_core::FeatureDatabase>();
    ov_msckf::UpdaterOptions uo;
    uo.chi2_multipler = 1e4;
    ov_msckf::UpdaterZeroVelocity z(uo, n, db, p, 9.81, 10, 1, 0);
    std::atomic<double> fed{-1};
    std::atomic<double> at{t0};
    auto feed = [&](const Imu &m) { double old = std::min<double>(m.timestamp - 1, at - 0.3); p->feed_imu(m, old); z.feed_imu(m, old); fed = m.timestamp; };
    auto update = [&](double t) { bool a = z.try_update(s[k], t); dec[k].push_back(a); at = s[k]->_timestamp; if (a) { p->clean_old_imu_measurements(t - 0.5); z.clean_old_imu_measurements(t - 0.5); } };
    if (k == 0) {
      size_t i = 0;
      for (double t : times) { while (i < d.size() && d[i].timestamp <= t + 0.05) feed(d[i++]); update(t); }
    } else {
      Crew crew;
      crew.add([&] { Rng q(s0); for (auto &m : d) { feed(m); nap(q); } });
      crew.add([&] { Rng q(s0 + 1); for (double t : times) { while (fed <= t + 0.05) std::this_thread::yield(); update(t); nap(q); } });
      crew.run();
      crew.join();
    }
  }
  long acc = 0;
  for (int a : dec[0]) acc += a;
  count("rests", acc);
  check(dec[0] == dec[1] && same(s[0], s[1]), "rest:same", fmt("%ld of %zu", acc, times.size()));
  distinct(fmt("zupt %s", optname(o).c_str()));
}
static void init(long c, Rng &r) {
  ov_init::InertialInitializerOptions o;
  o.init_window_time = r.u(0.3, 0.6);
  o.init_imu_thresh = 0.5;
  o.init_max_disparity = r.p(0.7) ? 5 : 0;
  o.init_max_features = 20;
  o.init_dyn_use = false;
  o.gravity_mag = 9.81;
  o.calib_camimu_dt = r.p(0.5) ? 0 : 0.005;
  auto db = std::make_shared<ov_core::FeatureDatabase>();
  ov_init::InertialInitializer z(o, db);
  double t0 = r.u(1, 100), dur = 2.5;
  auto d = readings(r, t0, dur, 150, true);
  std::atomic<double> fed{-1};
  std::atomic<bool> done{false};
  std::atomic<int> tries{0};
  uint64_t s0 = r.g();
  bool ok = false;
  double when = -1;
  Mat x;
  Crew crew;
  crew.add([&] { Rng q(s0); for (auto &m : d) { z.feed_imu(m, m.timestamp - o.init_window_time - 0.2); fed = m.timestamp; nap(q); usleep(100); } done = true; });
  crew.add([&] { // images, tracked while the initializer works
    Rng q(s0 + 1);
    double t = t0 + 0.01;
    while (!done) {
      while (fed < t + 0.02 && !done) std::this_thread::yield();
      for (size_t k = 0; k < 40; k++) db->update_feature(k, t, 0, 100 + 5 * k + q.n() * 0.1, 100 + 3 * k, 0.01 * k, 0.02 * k);
      if (q.p(0.1)) db->features_not_containing_newer(t - 0.5, q.p(0.5), true);
      t += 0.03;
    }
  });
  crew.add([&] {
    while (!done && !ok) {
      double ts = -1;
      Eigen::MatrixXd P;
      std::vector<std::shared_ptr<ov_type::Type>> order;
      auto imu = std::make_shared<ov_type::IMU>();
      if (z.initialize(ts, P, order, imu, false)) { ok = true; when = ts; x = imu->value(); }
      tries++;
      usleep(500);
    }
  });
  crew.run();
  crew.join();
  count("init:tries", tries);
  if (ok) {
    count("init:success");
    check(when > t0 && when < t0 + dur, "init:time");
    V3 up = jpl2R(V4(x.block(0, 0, 4, 1))) * V3(0, 0, 1);
    check(up(2) > 0.999, "init:upright", str(x));
  }
  distinct(fmt("init %d %d %d", ok, (int)(10 * o.init_window_time), o.init_max_disparity > 0));
}
/// the manager, fed from two threads and queried from a third, against the manager fed from one
static void manager(long c, Rng &r) {
  Opt o = filter_options(r, 0, true, 0.5);
  o.try_zupt = r.p(0.4);
  if (o.try_zupt) { o.zupt_max_velocity = 10; o.zupt_noise_multiplier = 10; o.zupt_options.chi2_multipler = 1e5; o.zupt_max_disparity = r.p(0.5) ? 0 : 20; o.zupt_only_at_beginning = r.p(0.4); }
  Motion m(r, r.u(0.5, 1.5), r.u(0.2, 0.6), r.u(0, 0.5));
  int es = r.i(0, 1 << 30);
  double dur = r.u(7, 8);
  uint64_t s0 = r.g();
  SP fin[2];
  std::shared_ptr<Vio> keep[2];
  long nframes = 0;
  for (int k = 0; k < 2; k++) {
    Rng e(es);
    Pipe p(o, m, dur, &e);
    if (p.start < 0) { count("no-start"); return; }
    std::vector<std::pair<Imu, int>> ev; // readings and the number of frames that may follow each
    std::vector<Frame> fr;
    std::vector<size_t> need; // readings needed by each frame
    std::vector<Imu> in;
    Frame f;
    while (fr.size() < 30 && p.next(f, [&](const Imu &d) { in.push_back(d); })) { fr.push_back(f); need.push_back(in.size()); }
    if (fr.size() < 8) { count("no-start"); return; }
    for (size_t i = 0; i < need[0]; i++) p.vio->feed_measurement_imu(in[i]);
    p.feed(fr[0]); // the first one sets the simulated tracker up
    auto v = p.vio;
    if (k == 0) {
      size_t i = need[0];
      for (size_t j = 1; j < fr.size(); j++) { while (i < need[j]) v->feed_measurement_imu(in[i++]); v->feed_measurement_simulation(fr[j].t, fr[j].ids, fr[j].f); }
    } else {
      std::atomic<size_t> fed{need[0]};
      std::atomic<bool> done{false};
      Crew crew;
      crew.add([&] { Rng q(s0); for (size_t i = need[0]; i < in.size(); i++) { v->feed_measurement_imu(in[i]); fed = i + 1; v->initialized(); nap(q); } });
      crew.add([&] { Rng q(s0 + 1); for (size_t j = 1; j < fr.size(); j++) { while (fed < need[j]) std::this_thread::yield(); v->feed_measurement_simulation(fr[j].t, fr[j].ids, fr[j].f); nap(q); } done = true; });
      crew.add([&] { Rng q(s0 + 2); while (!done) { v->get_historical_viz_image(); v->db()->size(); v->get_state()->margtimestep(); count("queries"); nap(q); usleep(500); } });
      crew.run();
      crew.join();
    }
    nframes = fr.size();
    fin[k] = p.s();
    keep[k] = v;
  }
  count("manager:frames", nframes);
  check(same(fin[0], fin[1]), "manager:same", name(o) + fmt(" zupt%d: %s and %s", o.try_zupt, str(fin[0]->_imu->value()).c_str(), str(fin[1]->_imu->value()).c_str()));
  distinct("manager " + name(o));
}
/// start up with images and background initialization, destroyed at any time
static void boot(long c, Rng &r) {
  int ncam = r.i(1, 2);
  Opt o = base(r, ncam, false, 0.005, 0.3);
  o.use_multi_threading_subs = true;
  o.num_opencv_threads = -1;
  o.use_klt = r.p(0.7);
  o.use_stereo = ncam == 2 && r.p(0.5);
  o.use_aruco = r.p(0.3);
  o.state_options.max_aruco_features = 20;
  o.num_pts = 40;
  o.grid_x = o.grid_y = 4;
  o.fast_threshold = 15;
  o.min_px_dist = 10;
  o.gravity_mag = 9.81;
  o.try_zupt = true;
  o.zupt_only_at_beginning = r.p(0.5);
  o.zupt_max_velocity = 0.5;
  o.zupt_noise_multiplier = 2;
  o.zupt_options.chi2_multipler = 1;
  o.zupt_max_disparity = 0.5;
  o.state_options.max_clone_size = r.i(4, 8);
  auto &n = o.init_options;
  n.init_window_time = 0.4;
  n.init_imu_thresh = 0.5;
  n.init_max_disparity = r.p(0.8) ? 5 : 2;
  n.init_max_features = 30;
  n.init_dyn_use = false;
  copy_init(o);
  int frames = r.p(0.3) ? r.i(3, 10) : r.i(34, 44); // some end while the background initialization is running
  double t0 = r.u(1, 100), dt = 0.05;
  int move = r.i(22, 28);
  auto d = readings(r, t0 - 0.1, frames * dt + 0.3, 200, true);
  for (auto &x : d) if (x.timestamp > t0 + move * dt) { x.wm += r.v3(0.2); x.am += r.v3(0.5); }
  int w = o.camera_intrinsics.at(0)->w(), h = o.camera_intrinsics.at(0)->h();
  Scene sc(r, w + 120, h + 120);
  std::vector<CameraData> all;
  double x = 40, y = 40;
  for (int k = 0; k < frames; k++) {
    CameraData m;
    m.timestamp = t0 + k * dt;
    for (int i = 0; i < ncam; i++) { m.sensor_ids.push_back(i); m.images.push_back(sc.view(x + 5 * i, y, w, h)); m.masks.push_back(cv::Mat::zeros(h, w, CV_8UC1)); }
    all.push_back(m);
    if (k > move) { x = std::min(80., std::max(10., x + (r.p(0.5) ? 1 : -1) * r.u(2, 6))); y = std::min(80., std::max(10., y + r.u(-6, 6))); }
  }
  uint64_t s0 = r.g();
  g_slow = r.i(0, 2) * r.i(1, 40);
  auto v = std::make_shared<Vio>(o);
  std::atomic<double> fed{-1};
  std::atomic<bool> done{false};
  {
    Crew crew;
    std::atomic<double> at{t0 - dt};
    crew.add([&] { Rng q(s0); for (auto &m : d) { while (m.timestamp > at + 2.5 * dt && !done) usleep(100); v->feed_measurement_imu(m); fed = m.timestamp; v->initialized(); nap(q); } });
    crew.add([&] { Rng q(s0 + 1); for (auto &m : all) { while (fed < m.timestamp + 0.05) usleep(100); v->feed_measurement_camera(m); at = m.timestamp; nap(q); } done = true; });
    crew.add([&] { Rng q(s0 + 2); while (!done) { v->get_historical_viz_image(); v->get_state()->margtimestep(); count("queries"); nap(q); usleep(2000); } });
    crew.run();
    crew.join();
  }
  bool ready = v->initialized();
  if (v->started()) { count("boot:started"); check(std::abs(v->get_state()->_timestamp - all.back().timestamp) < 1 && v->get_state()->_imu->value().allFinite(), "boot:time"); }
  if (!v->get_state()->_clones_IMU.empty()) count("boot:moving");
  if (ready) { count("boot:initialized"); sane(*v, "boot"); }
  v.reset(); // might have to wait for the background thread
  count("boot");
  count("boot:frames", frames);
  distinct(fmt("boot %d %d %d %d %d %d", ncam, o.use_stereo, o.use_klt, o.use_aruco, ready, frames / 6));
}
int main(int argc, char **argv) {
  vh::init(argc, argv);
  ov_core::Printer::setPrintLevel("SILENT");
  cv::setRNGSeed(0);
  cv::setNumThreads(0); // loops inside the library; ours are above
  run_cases(ctx().a.thorough() ? 2400 : 160, [&](long c, Rng &r) {
    switch (c % 8) {
    case 0: case 1: return tracker(c, r);
    case 2: return prop(c, r);
    case 3: return fast(c, r);
    case 4: return zupt(c, r);
    case 5: return init(c, r);
    case 6: return manager(c, r);
    default: return boot(c, r);
    }
  });
  return finish();
}
