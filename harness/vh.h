// Common part of every harness: arguments, seeded random numbers, counters, violation records, comparisons.
#ifndef VH_H
#define VH_H
#include <Eigen/Eigen>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {
typedef Eigen::MatrixXd Mat;
typedef Eigen::VectorXd Vec;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;

struct Args {
  uint64_t seed = 1;
  int shard = 0, nshards = 1;
  std::string tier = "quick", out = "/dev/stdout", cur, scratch = ".", mode;
  long only = -1;
  bool thorough() const { return tier == "thorough"; }
};

struct Ctx {
  Args a;
  std::ofstream out;
  int curfd = -1;
  long cur_case = -1;
  std::map<std::string, long> counts;
  std::map<std::string, double> maxes;
  std::map<std::string, int> nviol;
  std::set<uint64_t> distinct;
  int nsamples = 0;
  std::recursive_mutex mtx;
};
inline Ctx &ctx() {
  static Ctx c;
  return c;
}

inline std::string esc(const std::string &s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) o += ' ';
    else o += ch;
  }
  return o;
}
inline std::string fmt(const char *f, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}
template <class T> inline std::string str(const Eigen::MatrixBase<T> &m) {
  std::ostringstream ss;
  ss.precision(10);
  if (m.rows() * m.cols() > 200) ss << "[" << m.rows() << "x" << m.cols() << "]";
  else if (m.cols() == 1) ss << m.transpose();
  else ss << m;
  return ss.str();
}

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline uint64_t hash(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return mix(h) >> 12; // fits a JSON number
}

inline void count(const std::string &k, long n = 1) {
  std::lock_guard<std::recursive_mutex> l(ctx().mtx);
  ctx().counts[k] += n;
}
inline void maxv(const std::string &k, double v) {
  std::lock_guard<std::recursive_mutex> l(ctx().mtx);
  auto it = ctx().maxes.find(k);
  if (it == ctx().maxes.end()) ctx().maxes[k] = v;
  else if (v > it->second) it->second = v;
}
/// records one distinct, non trivial situation the oracle looked at
inline void distinct(const std::string &sig) {
  std::lock_guard<std::recursive_mutex> l(ctx().mtx);
  if (ctx().distinct.size() < 60000) ctx().distinct.insert(hash(sig));
}
inline void sample(const std::string &s) {
  std::lock_guard<std::recursive_mutex> l(ctx().mtx);
  if (ctx().nsamples++ < 3) ctx().out << "{\"t\":\"sample\",\"v\":\"" << esc(s) << "\"}\n";
}
inline void fail(const std::string &key, const std::string &detail) {
  std::lock_guard<std::recursive_mutex> l(ctx().mtx);
  if (ctx().nviol[key]++ < 5) {
    ctx().out << "{\"t\":\"viol\",\"key\":\"" << esc(key) << "\",\"detail\":\"" << esc(detail.substr(0, 3000)) << "\",\"case\":" << ctx().cur_case << "}\n";
    ctx().out.flush();
  }
}
inline bool check(bool ok, const std::string &key, const std::string &detail = "") {
  count("checks");
  if (!ok) fail(key, detail);
  return ok;
}
/// |a-b| <= tol (absolute, elementwise), NaN fails
template <class A, class B>
inline bool near(const Eigen::MatrixBase<A> &a_, const Eigen::MatrixBase<B> &b_, double tol, const std::string &key, const std::string &detail = "") {
  count("checks");
  Mat a = a_.template cast<double>(), b = b_.template cast<double>();
  if (a.rows() != b.rows() || a.cols() != b.cols()) {
    fail(key, fmt("size %dx%d instead of %dx%d; ", (int)a.rows(), (int)a.cols(), (int)b.rows(), (int)b.cols()) + detail);
    return false;
  }
  if (a.size() == 0) return true;
  double e = 0;
  bool bad = false;
  for (int i = 0; i < a.size(); i++) {
    double d = std::abs(a(i) - b(i));
    if (!(d <= tol)) bad = true;
    if (d > e) e = d;
  }
  if (bad) {
    int r = 0, c = 0;
    (a - b).cwiseAbs().maxCoeff(&r, &c);
    fail(key, fmt("max difference %.6g > %.3g at (%d,%d); ", e, tol, r, c) + detail + "\n got:\n" + str(a) + "\n expected:\n" + str(b));
    return false;
  }
  return true;
}
inline bool near(double a, double b, double tol, const std::string &key, const std::string &detail = "") {
  count("checks");
  if (!(std::abs(a - b) <= tol)) {
    fail(key, fmt("got %.12g expected %.12g (tolerance %.3g); ", a, b, tol) + detail);
    return false;
  }
  return true;
}
/// relative to the magnitude of the expected matrix
template <class A, class B>
inline bool nearrel(const Eigen::MatrixBase<A> &a, const Eigen::MatrixBase<B> &b, double rel, const std::string &key, const std::string &detail = "") {
  double s = b.size() ? b.cwiseAbs().maxCoeff() : 0;
  return near(a, b, rel * (s > 0 ? s : 1) + 1e-300, key, detail);
}

struct Rng {
  std::mt19937_64 g;
  explicit Rng(uint64_t s) : g(mix(s)) {}
  double u(double a = 0, double b = 1) { return a + (b - a) * std::uniform_real_distribution<double>(0, 1)(g); }
  double n(double s = 1) { return s * std::normal_distribution<double>(0, 1)(g); }
  int i(int a, int b) { return std::uniform_int_distribution<int>(a, b)(g); } // inclusive
  bool p(double x) { return u() < x; }
  double logu(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
  V3 v3(double s = 1) { return V3(n(s), n(s), n(s)); }
  V3 box(double s) { return V3(u(-s, s), u(-s, s), u(-s, s)); }
  V3 dir() { V3 v = v3(); return v / v.norm(); }
  Vec vec(int k, double s = 1) { Vec v(k); for (int j = 0; j < k; j++) v(j) = n(s); return v; }
  Mat mat(int r, int c, double s = 1) { Mat m(r, c); for (int j = 0; j < m.size(); j++) m(j) = n(s); return m; }
  /// JPL/Hamilton agnostic unit quaternion, scalar last and positive
  Eigen::Vector4d quat() { Eigen::Vector4d q(n(), n(), n(), n()); q.normalize(); if (q(3) < 0) q = -q; return q; }
  M3 rot() { Eigen::Vector4d q = quat(); return Eigen::Quaterniond(q(3), q(0), q(1), q(2)).toRotationMatrix(); }
  /// positive definite with a spread of scales
  Mat psd(int k, double s = 1, double floor = 1e-3) { Mat A = mat(k, k); Mat P = s * s * (A * A.transpose() / k + floor * Mat::Identity(k, k)); return 0.5 * (P + P.transpose()); }
  template <class T> T &pick(std::vector<T> &v) { return v[i(0, (int)v.size() - 1)]; }
};

// ------------------------------------------------- independent rotation helpers (do not use the code under test)
inline M3 skew(const V3 &w) { M3 s; s << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0; return s; }
inline M3 expm(const V3 &w) { // Eigen's own angle axis
  double t = w.norm();
  if (t < 1e-12) return M3::Identity() + skew(w) + 0.5 * skew(w) * skew(w);
  return Eigen::AngleAxisd(t, w / t).toRotationMatrix();
}
inline V3 logm(const M3 &R) { // via a Hamilton quaternion: accurate everywhere
  Eigen::Quaterniond q(R);
  q.normalize();
  V3 v(q.x(), q.y(), q.z());
  double w = q.w();
  if (w < 0) { w = -w; v = -v; }
  double s = v.norm();
  if (s < 1e-12) return 2 * v;
  return v * (2 * std::atan2(s, w) / s);
}
/// JPL quaternion (x,y,z,w) to the rotation matrix R(q) = (2w^2-1) I - 2w [v x] + 2 v v'
inline M3 jpl2R(const Eigen::Vector4d &q) { V3 v = q.head<3>(); return (2 * q(3) * q(3) - 1) * M3::Identity() - 2 * q(3) * skew(v) + 2 * v * v.transpose(); }
/// rotation matrix to JPL quaternion (scalar last, positive): the Hamilton quaternion of the transpose
inline Eigen::Vector4d R2jpl(const M3 &R) {
  Eigen::Quaterniond q(M3(R.transpose()));
  q.normalize();
  Eigen::Vector4d o(q.x(), q.y(), q.z(), q.w());
  if (o(3) < 0) o = -o;
  return o;
}
inline double min_eig(const Mat &P) {
  if (P.rows() == 0) return 0;
  return Eigen::SelfAdjointEigenSolver<Mat>(0.5 * (P + P.transpose()), Eigen::EigenvaluesOnly).eigenvalues()(0);
}
/// finite, symmetric and positive semi-definite after scaling to unit diagonal
inline bool check_cov(const Mat &P, const std::string &key, const std::string &detail = "", double tol = 1e-6) {
  count("checks");
  if (!P.allFinite()) { fail(key + ":finite", detail); return false; }
  if (P.rows() == 0) return true;
  double asym = (P - P.transpose()).cwiseAbs().maxCoeff(), mx = P.cwiseAbs().maxCoeff();
  if (asym > 1e-12 * std::max(mx, 1e-300)) { fail(key + ":symmetric", fmt("asymmetry %.3g of %.3g ", asym, mx) + detail); return false; }
  if (P.diagonal().minCoeff() < 0) { fail(key + ":diagonal", fmt("negative diagonal %.3g ", P.diagonal().minCoeff()) + detail); return false; }
  Vec d = P.diagonal().cwiseMax(1e-30).cwiseSqrt().cwiseInverse();
  Mat C = d.asDiagonal() * P * d.asDiagonal();
  double e = min_eig(C);
  if (e < -tol) { fail(key + ":psd", fmt("smallest eigenvalue of the correlation matrix %.3g ", e) + detail); return false; }
  return true;
}
/// central numerical Jacobian of f: R^n -> R^m at zero
inline Mat numjac(const std::function<Vec(const Vec &)> &f, int n, double h) {
  Mat J;
  for (int k = 0; k < n; k++) {
    Vec d = Vec::Zero(n);
    d(k) = h;
    Vec p = f(d), m = f(-d);
    if (J.size() == 0) J = Mat::Zero(p.size(), n);
    J.col(k) = (p - m) / (2 * h);
  }
  return J;
}
/// fourth order central difference
inline Mat numjac4(const std::function<Vec(const Vec &)> &f, int n, double h) {
  Mat J;
  for (int k = 0; k < n; k++) {
    Vec d = Vec::Zero(n);
    d(k) = h;
    Vec p1 = f(d), m1 = f(-d), p2 = f(2 * d), m2 = f(-2 * d);
    if (J.size() == 0) J = Mat::Zero(p1.size(), n);
    J.col(k) = (8 * (p1 - m1) - (p2 - m2)) / (12 * h);
  }
  return J;
}

inline void init(int argc, char **argv) {
  Args &a = ctx().a;
  for (int k = 1; k + 1 < argc; k += 2) {
    std::string n = argv[k], v = argv[k + 1];
    if (n == "--seed") a.seed = strtoull(v.c_str(), 0, 10);
    else if (n == "--shard") a.shard = atoi(v.c_str());
    else if (n == "--nshards") a.nshards = atoi(v.c_str());
    else if (n == "--tier") a.tier = v;
    else if (n == "--out") a.out = v;
    else if (n == "--cur") a.cur = v;
    else if (n == "--scratch") a.scratch = v;
    else if (n == "--mode") a.mode = v;
    else if (n == "--case") a.only = atol(v.c_str());
  }
  ctx().out.open(a.out, std::ios::app);
  if (!a.cur.empty()) ctx().curfd = open(a.cur.c_str(), O_CREAT | O_WRONLY, 0644);
}
inline void begin_case(long c) {
  ctx().cur_case = c;
  if (ctx().curfd >= 0) {
    char b[32];
    int n = snprintf(b, sizeof b, "%-20ld", c);
    if (pwrite(ctx().curfd, b, n, 0) < 0) {}
  }
}
inline uint64_t case_seed(long c) { return mix(ctx().a.seed * 1000003ULL + 7) ^ mix((uint64_t)c * 0x9e3779b97f4a7c15ULL + hash(ctx().a.mode)); }
/// runs cases c = shard, shard+nshards, ... < total
inline void run_cases(long total, const std::function<void(long, Rng &)> &f) {
  Args &a = ctx().a;
  if (getenv("VP_SCALE") && a.only < 0) total = std::max(8L, (long)(total * atof(getenv("VP_SCALE"))));
  for (long c = (a.only >= 0 ? a.only : a.shard); c < total; c += a.nshards) {
    begin_case(c);
    Rng r(case_seed(c));
    try {
      f(c, r);
    } catch (const std::exception &e) {
      fail(std::string("exception:") + typeid(e).name(), e.what());
    }
    count("cases");
    if (a.only >= 0) break;
  }
}
inline int finish() {
  auto &o = ctx().out;
  for (auto &k : ctx().counts) o << "{\"t\":\"count\",\"k\":\"" << esc(k.first) << "\",\"n\":" << k.second << "}\n";
  for (auto &k : ctx().maxes) o << "{\"t\":\"max\",\"k\":\"" << esc(k.first) << "\",\"n\":" << (std::isfinite(k.second) ? k.second : 1e300) << "}\n";
  o << "{\"t\":\"distinct\",\"h\":[";
  bool first = true;
  for (uint64_t h : ctx().distinct) { o << (first ? "" : ",") << h; first = false; }
  o << "]}\n{\"t\":\"done\"}\n";
  o.flush();
  return 0;
}
} // namespace vh
#endif
