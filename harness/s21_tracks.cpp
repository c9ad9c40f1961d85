// S21: the image front-ends keep unique, in-image, correctly stored tracks.
// The images are rendered from a known scene (textured planes) along a known camera motion, so that the true position
// of every tracked point is known; the monitors look at the reported observations, the ids and the feature database
// after every image.
#include <set>
#include <unordered_map>

#include <opencv2/aruco.hpp>
#include <opencv2/opencv.hpp>

#include "vs.h"

#include "cam/CamEqui.h"
#include "cam/CamRadtan.h"
#include "feat/Feature.h"
#include "feat/FeatureDatabase.h"
#include "track/TrackAruco.h"
#include "track/TrackDescriptor.h"
#include "track/TrackKLT.h"
#include "utils/print.h"
#include "utils/sensor_data.h"

using namespace vh;
using ov_core::TrackBase;
typedef std::shared_ptr<ov_core::CamBase> Cam;
typedef std::map<size_t, cv::Point2f> Obs; // id -> pixel

// ------------------------------------------------------------------------------------------------ rendering
/// textured plane z = depth covering [x0,x1] x [y0,y1], which may slide in its own plane
struct Layer {
  double z, x0, x1, y0, y1;
  cv::Mat tex;
  double scale; // texels per metre
  V3 slide = V3::Zero();
  bool intruder = false;
};
inline cv::Mat texture(Rng &r, int n, double contrast = 1) {
  cv::Mat t(n, n, CV_8U);
  int base = r.i(90, 160);
  t.setTo(base);
  int boxes = n * n / 300;
  for (int i = 0; i < boxes; i++) {
    int w = r.i(4, 26), h = r.i(4, 26);
    int c = (int)std::min(255., std::max(0., base + contrast * r.u(-110, 110)));
    std::vector<cv::Point> q;
    cv::Point c0(r.i(0, n), r.i(0, n));
    double a = r.u(0, 6.28);
    for (int k = 0; k < 4; k++) {
      double x = (k == 0 || k == 3 ? -w : w) * 0.5, y = (k < 2 ? -h : h) * 0.5;
      q.push_back(c0 + cv::Point((int)(x * cos(a) - y * sin(a)), (int)(x * sin(a) + y * cos(a))));
    }
    cv::fillConvexPoly(t, q, cv::Scalar(c), cv::LINE_AA);
  }
  cv::GaussianBlur(t, t, cv::Size(3, 3), 0.8);
  return t;
}
struct Pose {
  M3 R = M3::Identity(); // camera to world
  V3 p = V3::Zero();
};
struct Scene {
  std::vector<Layer> layers; // nearest first
  /// which layer a ray meets (-1 none) and where (coordinates on that layer)
  int hit(const Pose &c, const V3 &ray, Eigen::Vector2d &X) const {
    V3 d = c.R * ray;
    if (d(2) <= 1e-6) return -1;
    for (size_t i = 0; i < layers.size(); i++) {
      auto &l = layers[i];
      double s = (l.z - c.p(2)) / d(2);
      if (s <= 0) continue;
      double x = c.p(0) + s * d(0) - l.slide(0), y = c.p(1) + s * d(1) - l.slide(1);
      if (x < l.x0 || x > l.x1 || y < l.y0 || y > l.y1) continue;
      X << x, y;
      return (int)i;
    }
    return -1;
  }
};
struct Lens {
  Cam cam;
  int w, h;
  std::vector<Eigen::Vector2f> rays; // per pixel
  void make() {
    rays.resize((size_t)w * h);
    for (int y = 0; y < h; y++)
      for (int x = 0; x < w; x++) {
        cv::Point2f n = cam->undistort_cv(cv::Point2f((float)x, (float)y));
        rays[(size_t)y * w + x] << n.x, n.y;
      }
  }
  V3 ray(const cv::Point2f &p) const {
    cv::Point2f n = cam->undistort_cv(p);
    return V3(n.x, n.y, 1);
  }
  cv::Mat render(const Scene &s, const Pose &c, Rng &r, double noise) const {
    cv::Mat img(h, w, CV_8U);
    for (int y = 0; y < h; y++)
      for (int x = 0; x < w; x++) {
        auto &n = rays[(size_t)y * w + x];
        Eigen::Vector2d X;
        int l = s.hit(c, V3(n(0), n(1), 1), X);
        double v = 128;
        if (l >= 0) {
          auto &L = s.layers[l];
          double u = (X(0) + 50) * L.scale, q = (X(1) + 50) * L.scale;
          int n0 = L.tex.cols, iu = (int)std::floor(u), iq = (int)std::floor(q);
          double fu = u - iu, fq = q - iq;
          auto T = [&](int a, int b) { return (double)L.tex.at<uint8_t>(((b % n0) + n0) % n0, ((a % n0) + n0) % n0); };
          v = (1 - fq) * ((1 - fu) * T(iu, iq) + fu * T(iu + 1, iq)) + fq * ((1 - fu) * T(iu, iq + 1) + fu * T(iu + 1, iq + 1));
        }
        if (noise > 0) v += noise * (r.u(-1, 1) + r.u(-1, 1));
        img.at<uint8_t>(y, x) = (uint8_t)std::min(255., std::max(0., v + 0.5));
      }
    return img;
  }
};
/// where a pixel of one image is to be seen in another image
struct Follow {
  int layer = -1;
  bool clear = false; // its neighbourhood belongs to the same layer in both images
  bool inside = false;
  cv::Point2f at;
};
static Follow follow(const Lens &l0, const Scene &s0, const Pose &c0, const Lens &l1, const Scene &s1, const Pose &c1, const cv::Point2f &p, int reach = 10) {
  Follow f;
  Eigen::Vector2d X, Y;
  f.layer = s0.hit(c0, l0.ray(p), X);
  if (f.layer < 0) return f;
  auto &L = s1.layers[f.layer];
  V3 w(X(0) + L.slide(0), X(1) + L.slide(1), L.z), q = c1.R.transpose() * (w - c1.p);
  if (q(2) <= 0.05) return f;
  Eigen::Vector2f d = l1.cam->distort_f(Eigen::Vector2f((float)(q(0) / q(2)), (float)(q(1) / q(2))));
  f.at = cv::Point2f(d(0), d(1));
  f.inside = d(0) > 22 && d(1) > 22 && d(0) < l1.w - 22 && d(1) < l1.h - 22;
  f.clear = f.inside;
  for (int k = 0; k < 8 && f.clear; k++) {
    cv::Point2f o((float)(reach * cos(k * M_PI / 4)), (float)(reach * sin(k * M_PI / 4)));
    f.clear = s0.hit(c0, l0.ray(p + o), Y) == f.layer && s1.hit(c1, l1.ray(f.at + o), Y) == f.layer;
  }
  return f;
}

// ------------------------------------------------------------------------------------------------ monitors
struct Monitor {
  std::shared_ptr<TrackBase> t;
  std::vector<Lens> lens;
  bool klt, desc, shared; // shared: the cameras form stereo pairs
  int N, naruco, gx, gy, dist;
  std::map<size_t, Obs> prev;                       // per camera
  std::map<size_t, std::vector<size_t>> order;      // per camera, in list order
  std::map<size_t, std::set<size_t>> gone;          // per camera: ids that left the list
  std::map<size_t, cv::Mat> mask_prev;
  size_t top = 0;                                   // largest id ever reported
  std::set<size_t> renamed;
  std::string what;
  std::map<size_t, Obs> now;

  static Obs obs(TrackBase &t, size_t cam, std::vector<size_t> *order = nullptr, const std::string &what = "") {
    Obs o;
    auto ids = t.get_last_ids();
    auto pts = t.get_last_obs();
    auto a = ids.find(cam);
    auto b = pts.find(cam);
    size_t na = a == ids.end() ? 0 : a->second.size(), nb = b == pts.end() ? 0 : b->second.size();
    check(na == nb, "lists", what + fmt(" camera %zu: %zu ids and %zu points", cam, na, nb));
    for (size_t i = 0; i < std::min(na, nb); i++) {
      check(!o.count(a->second[i]), "identity:unique", what + fmt(" camera %zu: id %zu twice in one image", cam, a->second[i]));
      o[a->second[i]] = b->second[i].pt;
      if (order) order->push_back(a->second[i]);
    }
    return o;
  }
  int cells() const {
    int x = gx, y = gy;
    if (N < x * y) {
      double q = (double)x / y;
      y = (int)std::ceil(std::sqrt(N / q));
      x = (int)std::ceil(y * q);
    }
    return x * y;
  }
  /// the monitors that hold for every image sequence
  void look(const ov_core::CameraData &m) {
    std::set<size_t> fresh_all;
    bool only_detect_pair = true, any_empty = false;
    for (size_t c : m.sensor_ids) {
      only_detect_pair = only_detect_pair && prev[c].empty();
      any_empty = any_empty || prev[c].empty();
    }
    bool pair = shared && m.sensor_ids.size() == 2;
    std::map<size_t, Obs> db;
    for (auto &f : t->get_feature_database()->get_internal_data()) {
      check(f.first == f.second->featid, "database:key", what + fmt(" feature %zu stored under %zu", f.second->featid, f.first));
      for (auto &q : f.second->timestamps) {
        size_t c = q.first;
        check(q.second.size() == f.second->uvs[c].size() && q.second.size() == f.second->uvs_norm[c].size(), "database:lengths", what);
        for (size_t k = 0; k < q.second.size(); k++) {
          if (k) check(q.second[k - 1] < q.second[k], "database:once", what + fmt(" feature %zu camera %zu: times %.3f then %.3f", f.first, c, q.second[k - 1], q.second[k]));
          if (q.second[k] != m.timestamp) continue;
          Eigen::VectorXf uv = f.second->uvs[c][k], n = f.second->uvs_norm[c][k];
          db[c][f.first] = cv::Point2f(uv(0), uv(1));
          cv::Point2f e = lens[c].cam->undistort_cv(cv::Point2f(uv(0), uv(1)));
          check(std::abs(e.x - n(0)) < 1e-5 * (1 + std::abs(e.x)) && std::abs(e.y - n(1)) < 1e-5 * (1 + std::abs(e.y)), "database:undistorted",
                what + fmt(" feature %zu camera %zu pixel %.2f %.2f: stored %.5f %.5f, camera says %.5f %.5f", f.first, c, uv(0), uv(1), n(0), n(1), e.x, e.y));
          count("monitored:measurements");
        }
      }
    }
    for (auto &q : db) check(std::count(m.sensor_ids.begin(), m.sensor_ids.end(), q.first) == 1, "database:camera", what + fmt(" measurements for camera %zu which was not fed", q.first));
    now.clear();
    std::map<size_t, std::vector<size_t>> norder;
    for (size_t i = 0; i < m.sensor_ids.size(); i++) {
      size_t c = m.sensor_ids[i];
      Obs o = obs(*t, c, &norder[c], what);
      now[c] = o;
      count("monitored:images");
      count("monitored:points", (long)o.size());
      bool first = pair ? (klt ? only_detect_pair : any_empty) : prev[c].empty();
      const cv::Mat &mask = m.masks[i];
      // every reported point is inside of the image
      for (auto &p : o)
        check(p.second.x >= 0 && p.second.y >= 0 && p.second.x < lens[c].w && p.second.y < lens[c].h, "inside",
              what + fmt(" camera %zu (%dx%d): id %zu at %.3f %.3f", c, lens[c].w, lens[c].h, p.first, p.second.x, p.second.y));
      // the database has one measurement for each of them
      bool same = db[c] == o;
      if (!(first && db[c].empty()))
        check(same, "database:matches", what + fmt(" camera %zu%s: %zu tracks and %zu stored measurements%s", c, first ? " (first image)" : "", o.size(), db[c].size(),
                                                    o.size() == db[c].size() ? ", not the same" : ""));
      // identities
      for (auto &p : o) {
        check(!gone[c].count(p.first), "identity:returned", what + fmt(" camera %zu: id %zu was lost before", c, p.first));
        if (prev[c].count(p.first)) continue;
        bool known = false; // may be known to the other camera of a pair
        if (shared) for (auto &q : prev) known = known || q.second.count(p.first);
        if (shared && known && klt) { check(false, "identity:moved", what + fmt(" camera %zu: id %zu appeared, so far only in the other image", c, p.first)); continue; }
        if (!known) check(p.first > top, "identity:fresh", what + fmt(" camera %zu: new id %zu although %zu was given before", c, p.first, top));
        check(p.first > 4 * (size_t)naruco, "identity:above-tags", what + fmt(" id %zu with %d tags", p.first, naruco));
        if (!shared) check(fresh_all.insert(p.first).second, "identity:cameras", what + fmt(" id %zu in two cameras that are tracked on their own", p.first));
        count("monitored:new");
      }
      // masks
      if (klt && (!pair))
        if (!first)
          for (auto &p : o) check(mask.at<uint8_t>((int)p.second.y, (int)p.second.x) <= 127, "mask:now", what + fmt(" camera %zu: id %zu at %.2f %.2f is masked", c, p.first, p.second.x, p.second.y));
      if (klt && !first)
        for (auto &p : prev[c])
          if (mask_prev[c].at<uint8_t>((int)p.second.y, (int)p.second.x) > 127) {
            count("monitored:masked");
            check(!o.count(p.first), "mask:next", what + fmt(" camera %zu: id %zu was masked at %.2f %.2f and is tracked on", c, p.first, p.second.x, p.second.y));
          }
      if (desc || first) {
        cv::Mat core; // refinement may move a detection by up to five pixels
        cv::erode(mask, core, cv::Mat::ones(13, 13, CV_8U));
        for (auto &p : o) {
          bool in = core.at<uint8_t>((int)p.second.y, (int)p.second.x) > 127;
          check(!in, "mask:detected", what + fmt(" camera %zu: new id %zu at %.2f %.2f is well inside of the mask", c, p.first, p.second.x, p.second.y));
        }
        count("monitored:detections");
        // spacing: one cell holds one detection (the right image of a pair also holds tracked points)
        std::map<std::pair<int, int>, size_t> cell;
        bool right = pair && klt && i == 1;
        Obs &left = now[m.sensor_ids[0]];
        if (right)
          for (auto &p : o) if (left.count(p.first)) cell[{(int)(p.second.x / (float)dist), (int)(p.second.y / (float)dist)}] = p.first;
        for (auto &p : o) {
          if (right && left.count(p.first)) continue;
          std::pair<int, int> q{(int)(p.second.x / (float)dist), (int)(p.second.y / (float)dist)};
          auto had = cell.find(q);
          check(had == cell.end(), "spacing", what + fmt(" camera %zu: ids %zu and %zu detected in the same %d pixel cell", c, p.first, had == cell.end() ? 0 : had->second, dist));
          cell[q] = p.first;
        }
        int most = (right ? 2 * N : N) + cells();
        check((int)o.size() <= most, "number", what + fmt(" camera %zu: %zu points detected, %d wanted in %d cells", c, o.size(), N, cells()));
      }
      check((int)o.size() <= 2 * N + 2 * cells(), "number:tracked", what + fmt(" camera %zu: %zu points, %d wanted in %d cells", c, o.size(), N, cells()));
      for (auto &p : prev[c]) if (!o.count(p.first)) gone[c].insert(p.first);
      mask_prev[c] = mask.clone();
    }
    for (auto &q : now) {
      if (shared) { // the id stays known as long as one camera follows it
        for (auto &p : q.second) top = std::max(top, renamed.count(p.first) ? top : p.first);
      } else for (auto &p : q.second) top = std::max(top, renamed.count(p.first) ? top : p.first);
      prev[q.first] = q.second;
      order[q.first] = norder[q.first];
    }
  }
};

struct Setup {
  std::unordered_map<size_t, Cam> cams;
  std::vector<Lens> lens;
  int ncam, N, naruco, fast, gx, gy, dist;
  TrackBase::HistogramMethod hist;
  double knn;
  bool klt, stereo;
  std::shared_ptr<TrackBase> make(bool st) const {
    if (klt) return std::make_shared<ov_core::TrackKLT>(cams, N, naruco, st, hist, fast, gx, gy, dist);
    return std::make_shared<ov_core::TrackDescriptor>(cams, N, naruco, st, hist, fast, gx, gy, dist, knn);
  }
};
static Setup setup(Rng &r, int ncam, bool stereo, bool klt) {
  Setup s;
  s.ncam = ncam; s.stereo = stereo; s.klt = klt;
  int w = 16 * r.i(16, 24), h = 16 * r.i(12, 16);
  if (r.p(0.3)) { w += r.i(0, 15); h += r.i(0, 15); }
  for (int i = 0; i < ncam; i++) {
    Lens l;
    if (i && !stereo && r.p(0.5)) { w = r.i(250, 390); h = r.i(190, 260); }
    l.w = w; l.h = h;
    bool fish = r.p(0.3);
    Vec c(8);
    double f = w * r.u(0.55, 0.8);
    c << f, f * r.u(0.98, 1.02), w / 2. + r.u(-8, 8), h / 2. + r.u(-8, 8), 0, 0, 0, 0;
    if (fish) c.tail(4) << r.u(-0.03, 0.03), r.u(-0.01, 0.01), r.u(-0.005, 0.005), r.u(-0.002, 0.002);
    else c.tail(4) << r.u(-0.2, 0.03), r.u(-0.02, 0.04), r.u(-1e-3, 1e-3), r.u(-1e-3, 1e-3);
    if (fish) l.cam = std::make_shared<ov_core::CamEqui>(w, h);
    else l.cam = std::make_shared<ov_core::CamRadtan>(w, h);
    l.cam->set_value(c);
    l.make();
    s.cams[i] = l.cam;
    s.lens.push_back(l);
  }
  s.N = r.p(0.2) ? r.i(12, 40) : r.i(60, 250);
  s.naruco = r.p(0.3) ? 0 : r.i(1, 1024);
  s.fast = r.i(10, 30);
  s.gx = r.i(2, 8); s.gy = r.i(2, 6);
  s.dist = r.p(0.3) ? r.i(3, 7) : r.i(8, 18);
  s.hist = r.p(0.5) ? TrackBase::NONE : r.p(0.5) ? TrackBase::HISTOGRAM : TrackBase::CLAHE;
  s.knn = r.u(0.7, 0.9);
  return s;
}
static Scene scene(Rng &r, const Setup &s) {
  Scene w;
  double f = s.lens[0].cam->get_K()(0, 0), z = r.u(4, 7);
  auto add = [&](double zz, double x0, double x1, double y0, double y1) {
    Layer l;
    l.z = zz; l.x0 = x0; l.x1 = x1; l.y0 = y0; l.y1 = y1;
    l.scale = f / zz * r.u(0.8, 1.1);
    l.tex = texture(r, 512);
    w.layers.push_back(l);
  };
  int near = r.i(1, 3);
  double zz = z * r.u(0.4, 0.55);
  for (int i = 0; i < near; i++) { // boards in front of the wall
    double cx = r.u(-0.35, 0.35) * zz, cy = r.u(-0.25, 0.25) * zz, a = zz * r.u(0.12, 0.22), b = zz * r.u(0.12, 0.22);
    add(zz, cx - a, cx + a, cy - b, cy + b);
    zz *= r.u(1.1, 1.25);
  }
  add(z, -60, 60, -60, 60);
  return w;
}
static cv::Mat no_mask(const Lens &l) { return cv::Mat::zeros(l.h, l.w, CV_8U); }
static cv::Mat some_mask(Rng &r, const Lens &l) {
  cv::Mat m = no_mask(l);
  int k = r.i(1, 3);
  for (int i = 0; i < k; i++)
    cv::rectangle(m, cv::Rect(r.i(0, l.w * 3 / 4), r.i(0, l.h * 3 / 4), r.i(15, l.w / 3), r.i(15, l.h / 3)) & cv::Rect(0, 0, l.w, l.h), cv::Scalar(r.p(0.8) ? 255 : 128), -1);
  return m;
}

static const char *mode_name(int ncam, bool stereo) { return ncam == 1 ? "mono" : stereo ? "stereo" : "binocular"; }

static void sequence(Rng &r, bool klt) {
  int ncam = r.p(0.35) ? 1 : 2;
  bool stereo = ncam == 2 && r.p(0.55);
  Setup s = setup(r, ncam, stereo || (ncam == 1 && r.p(0.3)), klt);
  Scene w = scene(r, s);
  // motion: smooth, a few pixels between images, mostly sideways
  V3 vel(r.u(-1, 1), r.u(-1, 1), r.u(-0.4, 0.4)), rot(r.v3(1)), acc(r.v3(1));
  double z = w.layers.back().z, f = s.lens[0].cam->get_K()(0, 0);
  double step = r.p(0.15) ? 0 : r.u(1, 7) / f * 0.5 * z; // metres per image: up to about seven pixels on a near board
  if (vel.norm() > 0) vel /= vel.norm();
  double turn = r.p(0.2) ? 0 : r.u(0, 4) / f;
  Pose rig;
  rig.R = expm(r.v3(0.05));
  std::vector<Pose> ext(ncam);
  for (int i = 1; i < ncam; i++) {
    ext[i].R = expm(r.v3(stereo ? 0.005 : 0.1));
    ext[i].p = V3(r.u(3, 10) / f * 0.5 * z, 0, 0);
  }
  double noise = r.p(0.5) ? 0 : r.u(0, 3);
  int frames = r.i(8, 14);
  bool masked = r.p(0.5), moving_mask = r.p(0.3), hostile = r.p(0.35), one_missing = ncam == 2 && (klt || !stereo) && r.p(0.25);
  bool intruder = !hostile && r.p(0.3) && step > 0;
  V3 islide = V3::Zero();
  if (intruder) {
    // translation along x only: true flow is horizontal, the intruder slides vertically
    vel << (r.p(0.5) ? 1 : -1), 0, 0;
    acc.setZero();
    rig.R.setIdentity();
    turn = 0;
    step = r.u(4, 6) / f * z;
    Layer h = w.layers[0]; // near and far stripes
    w.layers.erase(w.layers.begin(), w.layers.end() - 1);
    h.z = 0.4 * z;
    h.scale = f / h.z;
    h.y0 = -60; h.y1 = 60;
    for (int i = -6; i <= 6; i++) {
      h.x0 = h.z * 0.5 * i; h.x1 = h.x0 + h.z * 0.25;
      w.layers.insert(w.layers.begin(), h);
    }
    Layer l;
    l.z = 0.33 * z;
    double cx = r.u(-0.2, 0.2) * l.z, cy = r.u(-0.15, 0.15) * l.z, a = l.z * 0.11;
    l.x0 = cx - a; l.x1 = cx + a; l.y0 = cy - a; l.y1 = cy + a;
    l.scale = f / l.z;
    l.tex = texture(r, 512);
    l.intruder = true;
    w.layers.insert(w.layers.begin(), l);
    islide << 0, (r.p(0.5) ? 1 : -1) * r.u(7, 11) / f * l.z, 0;
  }
  Monitor mon;
  mon.t = s.make(s.stereo);
  mon.lens = s.lens; mon.klt = klt; mon.desc = !klt; mon.shared = s.stereo && ncam == 2;
  mon.N = s.N; mon.naruco = s.naruco; mon.gx = s.gx; mon.gy = s.gy; mon.dist = s.dist;
  std::string conf = fmt("%s %s N=%d grid %dx%d dist %d fast %d hist %d tags %d%s%s%s", klt ? "klt" : "descriptor", mode_name(ncam, s.stereo), s.N, s.gx, s.gy, s.dist, s.fast, (int)s.hist,
                         s.naruco, masked ? " masked" : "", hostile ? " hostile" : "", intruder ? " intruder" : "");
  distinct(conf);
  count(std::string("mode:") + (klt ? "klt:" : "descriptor:") + mode_name(ncam, s.stereo));
  // replicas: the same tracker once more, and for cameras tracked on their own one tracker per camera
  std::shared_ptr<TrackBase> twin = s.make(s.stereo);
  std::vector<std::shared_ptr<TrackBase>> solo;
  if (ncam == 2 && !s.stereo) for (int i = 0; i < 2; i++) solo.push_back(s.make(false));
  std::vector<cv::Mat> masks;
  for (auto &l : s.lens) masks.push_back(masked ? some_mask(r, l) : no_mask(l));
  std::map<size_t, Pose> last_pose;
  std::map<size_t, Scene> last_scene;
  std::map<size_t, bool> last_good;
  std::map<size_t, cv::Mat> last_mask;
  cv::Mat shown, shown2;
  int quiet = 0; // images since the last disturbance
  V3 pos = V3::Zero();
  for (int k = 0; k < frames; k++) {
    if (k) {
      V3 d = vel + 0.15 * acc * sin(0.7 * k);
      rig.p += step * d;
      rig.R = rig.R * expm(turn * rot / std::sqrt(3.));
      if (intruder) w.layers[0].slide += islide;
    }
    if (moving_mask && masked) for (int i = 0; i < ncam; i++) masks[i] = some_mask(r, s.lens[i]);
    ov_core::CameraData m;
    m.timestamp = 10 + 0.05 * k;
    std::string kind = "scene";
    if (hostile && r.p(0.3)) kind = std::vector<std::string>{"blank", "noise", "black", "other", "flash", "allmasked"}[r.i(0, 5)];
    count("image:" + kind);
    std::vector<int> who;
    for (int i = 0; i < ncam; i++) who.push_back(i);
    if (one_missing && k && r.p(0.25)) { who = {r.i(0, 1)}; count("image:one-camera"); }
    std::map<size_t, Pose> pose;
    Scene other;
    if (kind == "other") other = scene(r, s);
    for (int i : who) {
      Lens &l = s.lens[i];
      Pose c;
      c.R = rig.R * ext[i].R;
      c.p = rig.p + rig.R * ext[i].p;
      pose[i] = c;
      cv::Mat img;
      if (kind == "blank") img = cv::Mat(l.h, l.w, CV_8U, cv::Scalar(r.i(1, 254)));
      else if (kind == "black") img = cv::Mat::zeros(l.h, l.w, CV_8U);
      else if (kind == "noise") { img = cv::Mat(l.h, l.w, CV_8U); for (int y = 0; y < l.h; y++) for (int x = 0; x < l.w; x++) img.at<uint8_t>(y, x) = (uint8_t)r.i(0, 255); }
      else if (kind == "other") img = l.render(other, c, r, noise);
      else img = l.render(w, c, r, noise);
      if (kind == "flash") img.convertTo(img, -1, r.u(0.3, 1.8), r.u(-40, 80));
      m.sensor_ids.push_back(i);
      m.images.push_back(img);
      m.masks.push_back(kind == "allmasked" ? cv::Mat(l.h, l.w, CV_8U, cv::Scalar(255)) : masks[i].clone());
    }
    std::vector<cv::Mat> keep;
    for (auto &q : m.images) keep.push_back(q.clone());
    std::map<size_t, Obs> before = mon.prev;
    mon.what = conf + fmt(" image %d (%s)", k, kind.c_str());
    mon.t->feed_new_camera(m);
    mon.look(m);
    // the images that were given are left alone
    for (size_t i = 0; i < keep.size(); i++) check(cv::norm(keep[i], m.images[i], cv::NORM_INF) == 0, "input", mon.what + " the given image was modified");
    // replicas
    {
      ov_core::CameraData m2 = m;
      for (auto &q : m2.images) q = q.clone();
      for (auto &q : m2.masks) q = q.clone();
      twin->feed_new_camera(m2);
      for (size_t c : m.sensor_ids) {
        Obs a = mon.now[c], b = Monitor::obs(*twin, c, nullptr, mon.what);
        std::multiset<std::pair<float, float>> A, B;
        for (auto &p : a) A.insert({p.second.x, p.second.y});
        for (auto &p : b) B.insert({p.second.x, p.second.y});
        check(A == B, "repeatable", mon.what + fmt(" camera %zu: the same images gave %zu and %zu points, not the same", c, A.size(), B.size()));
        if (!solo.empty()) {
          ov_core::CameraData one;
          one.timestamp = m.timestamp;
          for (size_t i = 0; i < m.sensor_ids.size(); i++)
            if (m.sensor_ids[i] == (int)c) { one.sensor_ids.push_back((int)c); one.images.push_back(m.images[i].clone()); one.masks.push_back(m.masks[i].clone()); }
          solo[c]->feed_new_camera(one);
          Obs d = Monitor::obs(*solo[c], c, nullptr, mon.what);
          std::multiset<std::pair<float, float>> D;
          for (auto &p : d) D.insert({p.second.x, p.second.y});
          check(A == D, "independent", mon.what + fmt(" camera %zu: %zu points together and %zu alone, not the same", c, A.size(), D.size()));
          count("monitored:independent");
        }
      }
    }
    // display never changes anything and copes with every state
    if (r.p(0.3)) {
      std::vector<size_t> hl;
      for (auto &p : mon.now.begin()->second) if (r.p(0.1)) hl.push_back(p.first);
      mon.t->display_active(shown, 255, 0, 0, 0, 0, 255, r.p(0.5) ? "" : "init");
      if (r.p(0.5)) shown2 = cv::Mat();
      mon.t->display_history(shown2, 255, 255, 0, 255, 255, 255, hl);
      for (size_t c : m.sensor_ids) check(Monitor::obs(*mon.t, c) == mon.now[c], "display", mon.what + " showing the tracks changed them");
      count("monitored:display");
    }
    // against the true motion
    bool plain = kind == "scene";
    quiet = plain ? quiet + 1 : 0;
    for (size_t i = 0; i < m.sensor_ids.size(); i++) {
      size_t c = m.sensor_ids[i];
      cv::Mat &mask = m.masks[i];
      bool pr = last_good.count(c) && last_good[c] && plain && (klt ? quiet > 1 : quiet > 1);
      if (pr && before.count(c)) {
        for (auto &p : before[c]) {
          Follow q = follow(s.lens[c], last_scene[c], last_pose[c], s.lens[c], w, pose[c], p.second);
          bool kept = mon.now[c].count(p.first);
          if (q.layer >= 0 && w.layers[q.layer].intruder) {
            if (!q.clear) continue;
            cv::Point2f e = kept ? mon.now[c][p.first] - q.at : cv::Point2f(99, 99);
            count("intruder:points");
            if (kept && std::hypot(e.x, e.y) < (klt ? 1.5 : 2.5)) count(std::string("intruder:kept:") + (klt ? "klt" : "descriptor"));
            continue;
          }
          if (kept && intruder) count(std::string("intruder:others:") + (klt ? "klt" : "descriptor"));
          if (kept && q.clear) {
            cv::Point2f e = mon.now[c][p.first] - q.at;
            double n = std::hypot(e.x, e.y), tol = klt ? 0.7 : 2.0;
            std::string key = std::string("flow:") + (klt ? "klt" : "descriptor");
            count(key + ":steps");
            if (n > tol) count(key + ":off");
            if (n > 8) count(key + ":wild");
          }
          if (q.clear && cv::countNonZero(mask(cv::Rect((int)q.at.x - 3, (int)q.at.y - 3, 7, 7)) > 127) == 0) {
            // also away from the old mask and not crowded by another track
            if (last_mask[c].at<uint8_t>((int)p.second.y, (int)p.second.x) > 127) continue;
            bool crowded = before[c].size() < 25;
            for (auto &z2 : before[c]) crowded = crowded || (z2.first != p.first && std::abs(z2.second.x - p.second.x) < 1.1 * s.dist && std::abs(z2.second.y - p.second.y) < 1.1 * s.dist);
            if (crowded) continue;
            std::string key = std::string("survive:") + (klt ? "klt" : "descriptor");
            count(key + ":points");
            if (!kept) count(key + ":lost");
          }
        }
      }
      // enough points where there is texture, also after a disturbance
      if (klt && quiet > 2 && plain && !masked && last_good.count(c)) {
        count("supply:images");
        if ((int)mon.now[c].size() * 4 < std::min(s.N, 80)) count("supply:poor");
      }
      last_good[c] = plain;
      last_pose[c] = pose[c];
      last_scene[c] = w;
      last_mask[c] = mask.clone();
    }
    // stereo pairs share ids of the same physical point
    if (mon.shared && m.sensor_ids.size() == 2 && plain && quiet > 1) {
      for (auto &p : mon.now[0]) {
        auto b = mon.now[1].find(p.first);
        if (b == mon.now[1].end()) { count("stereo:left-only"); continue; }
        count("stereo:shared");
        Follow q = follow(s.lens[0], w, pose[0], s.lens[1], w, pose[1], p.second);
        if (!q.clear) continue;
        cv::Point2f e = b->second - q.at;
        double tol = klt ? 3 : 4;
        count(std::string("stereo:") + (klt ? "klt" : "descriptor") + ":checked");
        if (std::hypot(e.x, e.y) > tol) count(std::string("stereo:") + (klt ? "klt" : "descriptor") + ":off");
      }
    }
    // an id is changed from outside
    if (r.p(0.12)) {
      size_t c = m.sensor_ids[r.i(0, (int)m.sensor_ids.size() - 1)];
      if (!mon.now[c].empty()) {
        auto it = mon.now[c].begin();
        std::advance(it, r.i(0, (int)mon.now[c].size() - 1));
        size_t a = it->first, b = r.p(0.5) && s.naruco > 3 ? (size_t)r.i(0, 4 * s.naruco - 1) : 1000000 + (size_t)r.i(0, 100000);
        ov_core::Feature fa, fb;
        auto db = mon.t->get_feature_database();
        bool ina = db->get_feature_clone(a, fa), inb = db->get_feature_clone(b, fb);
        if (!inb && !mon.renamed.count(a)) {
          mon.t->change_feat_id(a, b);
          count("monitored:renamed");
          ov_core::Feature f2;
          check(!db->get_feature_clone(a, f2), "rename:old", mon.what + fmt(" id %zu is still in the database", a));
          bool in2 = db->get_feature_clone(b, f2);
          check(in2 == ina, "rename:new", mon.what + fmt(" id %zu -> %zu is not in the database", a, b));
          if (ina && in2) check(f2.featid == b && f2.timestamps == fa.timestamps && f2.uvs == fa.uvs && f2.uvs_norm == fa.uvs_norm, "rename:history", mon.what + " the history changed with the id");
          for (auto &q : mon.prev) {
            bool had = q.second.count(a);
            Obs e = q.second;
            if (had) { e[b] = e[a]; e.erase(a); }
            Obs g = Monitor::obs(*mon.t, q.first, nullptr, mon.what);
            check(e == g, "rename:tracks", mon.what + fmt(" camera %zu: the list of tracks is not the old one with %zu renamed to %zu", q.first, a, b));
            if (had) mon.gone[q.first].insert(a);
            q.second = g;
          }
          mon.renamed.insert(b);
        }
      }
    }
  }
}

// ------------------------------------------------------------------------------------------------ tags
static void tags(Rng &r) {
  int ncam = r.i(1, 2);
  bool down = r.p(0.35);
  int maxtag = r.p(0.3) ? r.i(20, 60) : r.i(61, 1000);
  std::vector<Lens> lens;
  std::unordered_map<size_t, Cam> cams;
  for (int i = 0; i < ncam; i++) {
    Lens l;
    l.w = r.i(420, 640); l.h = r.i(360, 480);
    Vec c(8);
    c << r.u(300, 450), r.u(300, 450), l.w / 2., l.h / 2., r.u(-0.2, 0.03), r.u(-0.02, 0.04), 0, 0;
    l.cam = std::make_shared<ov_core::CamRadtan>(l.w, l.h);
    l.cam->set_value(c);
    lens.push_back(l);
    cams[i] = l.cam;
  }
  auto hist = r.p(0.6) ? TrackBase::NONE : r.p(0.5) ? TrackBase::HISTOGRAM : TrackBase::CLAHE;
  auto t = std::make_shared<ov_core::TrackAruco>(cams, maxtag, r.p(0.5), hist, down);
  auto dict = cv::aruco::getPredefinedDictionary(cv::aruco::DICT_6X6_1000);
  std::string conf = fmt("aruco %d cameras max %d%s hist %d", ncam, maxtag, down ? " half size" : "", (int)hist);
  distinct(conf);
  count("mode:aruco");
  cv::Mat shown;
  std::vector<std::pair<size_t, double>> expect; // measurements so far (feature, time) of camera 0
  for (int k = 0; k < 4; k++) {
    ov_core::CameraData m;
    m.timestamp = 1 + 0.1 * k;
    std::vector<std::map<int, std::vector<cv::Point2f>>> truth(ncam);
    std::vector<int> who;
    for (int i = 0; i < ncam; i++) if (ncam == 1 || r.p(0.85) || (i == ncam - 1 && who.empty())) who.push_back(i);
    for (int i : who) {
      Lens &l = lens[i];
      cv::Mat img(l.h, l.w, CV_8U, cv::Scalar(r.i(180, 255)));
      std::set<int> used;
      int nx = 3, ny = 2, cw = l.w / nx, ch = l.h / ny;
      for (int y = 0; y < ny; y++)
        for (int x = 0; x < nx; x++) {
          if (r.p(0.25)) continue;
          int id = r.p(0.3) ? r.i(std::max(0, maxtag - 4), std::min(999, maxtag + 4)) : r.p(0.3) ? r.i(0, 999) : r.i(0, maxtag - 1);
          if (!used.insert(id).second) continue;
          cv::Mat tag;
          int n = 160;
          cv::aruco::drawMarker(dict, id, n, tag, 1);
          cv::Mat pad;
          int b = 30;
          cv::copyMakeBorder(tag, pad, b, b, b, b, cv::BORDER_CONSTANT, cv::Scalar(255));
          double side = std::min(cw, ch) * r.u(0.5, 0.62) * 0.5, a = r.u(0, 2 * M_PI);
          cv::Point2f o((float)(x * cw + cw * 0.5 + r.u(-6, 6)), (float)(y * ch + ch * 0.5 + r.u(-6, 6)));
          std::vector<cv::Point2f> dst, src{{(float)b - 0.5f, (float)b - 0.5f}, {(float)(b + n) - 0.5f, (float)b - 0.5f}, {(float)(b + n) - 0.5f, (float)(b + n) - 0.5f}, {(float)b - 0.5f, (float)(b + n) - 0.5f}};
          for (int q = 0; q < 4; q++) {
            double px = (q == 0 || q == 3 ? -1 : 1) * side * r.u(0.9, 1.1), py = (q < 2 ? -1 : 1) * side * r.u(0.9, 1.1);
            dst.push_back(o + cv::Point2f((float)(px * cos(a) - py * sin(a)), (float)(px * sin(a) + py * cos(a))));
          }
          cv::Mat H = cv::getPerspectiveTransform(src, dst), out, cover;
          cv::warpPerspective(pad, out, H, img.size(), cv::INTER_AREA, cv::BORDER_CONSTANT, cv::Scalar(0));
          cv::warpPerspective(cv::Mat(pad.size(), CV_8U, cv::Scalar(255)), cover, H, img.size(), cv::INTER_NEAREST, cv::BORDER_CONSTANT, cv::Scalar(0));
          cv::erode(cover, cover, cv::Mat::ones(3, 3, CV_8U));
          out.copyTo(img, cover);
          truth[i][id] = dst;
        }
      if (r.p(0.5)) cv::GaussianBlur(img, img, cv::Size(3, 3), 0.7);
      cv::Mat mask = r.p(0.5) ? no_mask(l) : some_mask(r, l);
      m.sensor_ids.push_back(i);
      m.images.push_back(img);
      m.masks.push_back(mask);
    }
    std::string what = conf + fmt(" image %d", k);
    t->feed_new_camera(m);
    std::map<size_t, Obs> db;
    for (auto &f : t->get_feature_database()->get_internal_data())
      for (auto &q : f.second->timestamps)
        for (size_t z = 0; z < q.second.size(); z++) {
          if (z) check(q.second[z - 1] < q.second[z], "tags:once", what);
          if (q.second[z] != m.timestamp) continue;
          Eigen::VectorXf uv = f.second->uvs[q.first][z], n = f.second->uvs_norm[q.first][z];
          cv::Point2f e = lens[q.first].cam->undistort_cv(cv::Point2f(uv(0), uv(1)));
          check(std::abs(e.x - n(0)) < 1e-5 && std::abs(e.y - n(1)) < 1e-5, "tags:undistorted", what);
          db[q.first][f.first] = cv::Point2f(uv(0), uv(1));
        }
    for (size_t i = 0; i < m.sensor_ids.size(); i++) {
      size_t c = m.sensor_ids[i];
      Obs o = Monitor::obs(*t, c, nullptr, what);
      check(o == db[c], "tags:database", what + fmt(" camera %zu: %zu corners and %zu stored measurements", c, o.size(), db[c].size()));
      std::set<int> seen;
      for (auto &p : o) {
        int tag = (int)(p.first % maxtag), n = (int)(p.first / maxtag);
        bool drawn = truth[c].count(tag) && n < 4;
        count("tags:corners");
        if (!drawn) { count("tags:undrawn"); continue; }
        seen.insert(tag);
        cv::Point2f e = p.second - truth[c][tag][n];
        if (std::hypot(e.x, e.y) > (down ? 9 : 5)) count("tags:far"); // the refinement may take another edge for a side of the tag
        check(std::hypot(e.x, e.y) < (down ? 25 : 15), "tags:corner", what + fmt(" camera %zu: corner %d of tag %d at %.1f %.1f, drawn at %.1f %.1f", c, n, tag, p.second.x, p.second.y, truth[c][tag][n].x, truth[c][tag][n].y));
        check(m.masks[i].at<uint8_t>((int)p.second.y, (int)p.second.x) <= 127, "tags:mask", what + fmt(" camera %zu: corner %d of tag %d is masked", c, n, tag));
      }
      for (auto &g : truth[c]) {
        bool free = true, any = false;
        for (int n = 0; n < 4; n++) {
          cv::Rect box = cv::Rect((int)g.second[n].x - 7, (int)g.second[n].y - 7, 15, 15) & cv::Rect(0, 0, lens[c].w, lens[c].h);
          bool clear = cv::countNonZero(m.masks[i](box) > 127) == 0;
          free = free && clear;
          any = any || o.count((size_t)(g.first + n * maxtag));
        }
        if (g.first >= maxtag) { count("tags:too-large"); continue; }
        for (int n = 0; n < 4; n++) {
          cv::Rect box = cv::Rect((int)g.second[n].x - 7, (int)g.second[n].y - 7, 15, 15) & cv::Rect(0, 0, lens[c].w, lens[c].h);
          if (cv::countNonZero(m.masks[i](box) > 127) == 0 && seen.count(g.first))
            check(o.count((size_t)(g.first + n * maxtag)), "tags:partial", what + fmt(" camera %zu: tag %d was seen but its unmasked corner %d was not reported", c, g.first, n));
        }
        if (free) { count("tags:drawn"); if (!any) count("tags:missed"); }
      }
    }
    t->display_active(shown, 255, 0, 0, 0, 0, 255, "");
    t->display_history(shown, 255, 0, 0, 0, 0, 255);
  }
}

int main(int argc, char **argv) {
  init(argc, argv);
  ov_core::Printer::setPrintLevel(getenv("VP_PRINT") ? "ALL" : "SILENT");
  cv::setNumThreads(2);
  run_cases(ctx().a.tier == "thorough" ? 6000 : 400, [](long c, Rng &r) {
    if (c % 10 < 6) sequence(r, true);
    else if (c % 10 < 9) sequence(r, false);
    else tags(r);
  });
  return finish();
}
