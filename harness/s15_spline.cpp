// S15: the spline against an independent construction, its own numerical derivatives, and the exact range in which it may be asked.
#include "vh.h"
#include "sim/BsplineSE3.h"
#include "utils/print.h"
#include <unsupported/Eigen/MatrixFunctions>
using namespace vh;
typedef Eigen::Matrix4d M4;
typedef Eigen::Matrix<double, 6, 1> V6;
static M4 hat6(const V6 &v) { M4 m = M4::Zero(); m.topLeftCorner(3, 3) = skew(v.head(3)); m.block(0, 3, 3, 1) = v.tail(3); return m; }
static M4 ex(const M4 &m) { return m.exp(); }
/// logarithm of a rigid transform as a 4x4 matrix: rotation by quaternion, translation through the inverse left Jacobian
static M4 lg(const M4 &T) {
  V3 w = logm(T.topLeftCorner(3, 3));
  double t = w.norm();
  M3 W = skew(w), Ji = M3::Identity() - 0.5 * W;
  Ji += (t < 1e-4 ? 1.0 / 12 + t * t / 720 : (1 / (t * t) - (1 + std::cos(t)) / (2 * t * std::sin(t)))) * W * W;
  V6 o;
  o << w, Ji * T.block(0, 3, 3, 1);
  return hat6(o);
}
static M4 inv(const M4 &T) { M4 o = M4::Identity(); o.topLeftCorner(3, 3) = T.topLeftCorner(3, 3).transpose(); o.block(0, 3, 3, 1) = -T.topLeftCorner(3, 3).transpose() * T.block(0, 3, 3, 1); return o; }
struct Spline {
  double dt, t0, tmax;
  std::vector<double> ct;
  std::vector<M4> cp;
  std::map<double, M4> poses;
  int nmin, nmax; // number of control points, when rounding decides about the last one
  Spline(const std::vector<Vec> &tr) {
    dt = (tr.back()(0) - tr.front()(0)) / (tr.size() - 1);
    if (!(dt >= 0.05)) dt = 0.05;
    for (size_t i = 0; i + 1 < tr.size(); i++) {
      M4 T = M4::Identity();
      T.topLeftCorner(3, 3) = jpl2R(tr[i].segment<4>(4)).transpose();
      T.block(0, 3, 3, 1) = tr[i].segment<3>(1);
      poses.insert({tr[i](0), T});
    }
    t0 = poses.begin()->first;
    tmax = poses.rbegin()->first;
    nmin = nmax = 0;
    double eps = 1e-8 + 1e-14 * std::abs(tmax) * 1000;
    for (double t = t0; t < tmax + eps; t += dt) {
      auto hi = poses.upper_bound(t);
      if (hi == poses.end()) { nmax++; break; }
      if (hi == poses.begin()) hi++;
      auto lo = std::prev(hi);
      double l = (t - lo->first) / (hi->first - lo->first);
      ct.push_back(t);
      cp.push_back(ex(l * lg(hi->second * inv(lo->second))) * lo->second);
      nmax++;
      if (t < tmax - eps) nmin++;
    }
  }
  /// 1 inside, 0 outside, -1 rounding decides
  int valid(double t) const {
    double e = 1e-7 * dt + 1e-12 * std::abs(t);
    if (nmax < 4) return 0;
    double lo = ct[0] + dt, hmin = ct[0] + (nmin - 2) * dt, hmax = ct[0] + (nmax - 2) * dt;
    if (t > lo + e && t < hmin - e) return nmin < 4 ? -1 : 1;
    if (t < lo - e || t > hmax + e) return 0;
    return -1;
  }
  bool pose(double t, M4 &T) const {
    for (size_t i = 1; i + 2 < ct.size(); i++)
      if (t >= ct[i] && t < ct[i + 1]) {
        double u = (t - ct[i]) / (ct[i + 1] - ct[i]);
        double b0 = (5 + 3 * u - 3 * u * u + u * u * u) / 6, b1 = (1 + 3 * u + 3 * u * u - 2 * u * u * u) / 6, b2 = u * u * u / 6;
        T = cp[i - 1] * ex(b0 * lg(inv(cp[i - 1]) * cp[i])) * ex(b1 * lg(inv(cp[i]) * cp[i + 1])) * ex(b2 * lg(inv(cp[i + 1]) * cp[i + 2]));
        return true;
      }
    return false;
  }
};
int main(int argc, char **argv) {
  vh::init(argc, argv);
  ov_core::Printer::setPrintLevel("SILENT");
  run_cases(ctx().a.thorough() ? 20000 : 900, [&](long c, Rng &r) {
    // a smooth random motion, sampled in one of several ways
    int n = r.p(0.1) ? r.i(2, 6) : r.i(7, 60), how = r.i(0, 5), motion = r.i(0, 3);
    double base = r.p(0.7) ? r.u(0, 100) : r.p(0.5) ? r.u(-50, 0) : r.u(1e3, 2e4), step = r.p(0.5) ? r.u(0.01, 0.05) : r.u(0.05, 0.4);
    V3 amp = r.v3(2), ph = r.box(3), fr(r.u(0.1, 1), r.u(0.1, 1), r.u(0.1, 1)), rm = r.v3(motion == 0 ? 0 : 0.5), rp = r.box(3);
    M3 Rb = r.rot();
    V3 off = r.v3(r.p(0.2) ? 1000 : 5);
    std::vector<Vec> tr;
    double t = base;
    for (int i = 0; i < n; i++) {
      Vec p(8);
      p(0) = t;
      double s = t - base;
      V3 pos = motion == 1 ? V3::Zero() : V3(amp.array() * (fr * s * 2 + ph).array().sin());
      p.segment<3>(1) = off + pos;
      p.segment<4>(4) = R2jpl(expm(V3(rm.array() * (fr * s * 3 + rp).array().cos())) * Rb);
      if (r.p(0.2)) p.segment<4>(4) *= -1; // the other quaternion of the same rotation
      tr.push_back(p);
      t += how == 0 ? step : how == 1 ? 0.05 : step * r.u(0.1, 1.9);
      if (how == 3 && r.p(0.2)) t -= step * 0 + (t - p(0)); // repeated timestamp with (possibly) another pose
      if (how == 4 && r.p(0.05)) t += 6 * step;             // a gap
    }
    if (how == 5) for (int i = 0; i < n; i++) std::swap(tr[i], tr[r.i(i, n - 1)]);
    if (tr.back()(0) == tr.front()(0) && n == 2) tr.back()(0) += 0.1;
    std::string id = fmt("case n=%d sampling=%d motion=%d step=%.3f base=%.1f", n, how, motion, step, base);
    Spline ref(tr);
    ov_core::BsplineSE3 sp, sp2;
    auto feed = [](ov_core::BsplineSE3 &s, const std::vector<Vec> &t) { std::vector<Eigen::VectorXd> v(t.begin(), t.end()); s.feed_trajectory(v); };
    feed(sp, tr);
    feed(sp2, tr);
    count(fmt("sampling:%d", how));
    near(sp.get_start_time(), ref.t0 + 2 * ref.dt, 1e-9 + 1e-12 * std::abs(base), "start-time", id);
    double span = ref.tmax - ref.t0, scale = 0;
    for (size_t i = 0; i + 1 < ref.cp.size(); i++) {
      double d = (ref.cp[i].block(0, 3, 3, 1) - ref.cp[i + 1].block(0, 3, 3, 1)).norm() + logm(M3(ref.cp[i].topLeftCorner(3, 3).transpose() * ref.cp[i + 1].topLeftCorner(3, 3))).norm();
      scale = std::max(scale, d);
    }
    int nq = 24;
    for (int k = 0; k < nq; k++) {
      double q;
      int reg = r.i(0, 5);
      if (reg == 0) q = ref.t0 + r.u(-0.5, 1) * ref.dt * 3;
      else if (reg == 1) q = ref.tmax + r.u(-1, 0.5) * ref.dt * 4;
      else if (reg == 2) q = ref.t0 + r.i(0, (int)ref.ct.size() + 1) * ref.dt + r.u(-1, 1) * 1e-3 * ref.dt; // at a knot
      else if (reg == 3 && k % 3 == 0) q = r.p(0.5) ? ref.t0 - r.u(0, 100) : ref.tmax + r.u(0, 100);
      else q = ref.t0 + r.u(0, 1) * span;
      int val = ref.valid(q);
      M3 R = M3::Zero(), R2, R3, R4;
      V3 p, p2, p3, w, w2, v, v2, al, a;
      bool ok = sp.get_pose(q, R, p), ok2 = sp.get_velocity(q, R2, p2, w, v), ok3 = sp.get_acceleration(q, R3, p3, w2, v2, al, a);
      std::string d = id + fmt(" query=%.9f", q);
      check(ok == ok2 && ok2 == ok3, "same-range", d);
      if (val >= 0) { check(ok == (val == 1), val ? "inside-fails" : "outside-succeeds", d); count(val ? "inside" : "outside"); }
      distinct(fmt("how%d mot%d reg%d val%d fine%d n%d", how, motion, reg, val, step < 0.05, n > 12 ? 2 : n > 6));
      if (!ok || !ok2 || !ok3) continue;
      double ls = 1 + off.norm() + amp.norm();
      M4 T;
      if (ref.pose(q, T)) {
        double tq = 1e-9 + 1e-12 * std::abs(q) * scale / ref.dt * 10;
        near(R, Mat(T.topLeftCorner(3, 3).transpose()), tq, "orientation", d);
        near(p, Mat(T.block(0, 3, 3, 1)), tq * ls, "position", d);
        count("poses");
      }
      near(R2, R, 1e-13, "same-pose", d); near(R3, R, 1e-13, "same-pose", d);
      near(p2, p, 1e-12 * ls, "same-pose", d); near(p3, p, 1e-12 * ls, "same-pose", d);
      near(w2, w, 1e-10 * (1 + w.norm()), "same-velocity", d); near(v2, v, 1e-10 * (ls + v.norm()), "same-velocity", d);
      near(Mat(R * R.transpose()), Mat(M3::Identity()), 1e-9, "rotation-matrix", d);
      // derivatives of the spline itself; the third derivative jumps at the knots, which bounds the difference quotient
      double h = ref.dt * 1e-3;
      M3 Ra[4]; V3 pa[4], wa[4], va[4];
      bool all = true;
      double st[4] = {-2, -1, 1, 2};
      for (int j = 0; j < 4; j++) all = all && sp.get_velocity(q + st[j] * h, Ra[j], pa[j], wa[j], va[j]);
      if (all) {
        count("derivatives");
        double tn = 1e-12 * std::abs(q) / h; // time resolution
        auto diff = [&](const V3 &m2, const V3 &m1, const V3 &p1, const V3 &p2) { return V3((8 * (p1 - m1) - (p2 - m2)) / (12 * h)); };
        V3 z[4];
        for (int j = 0; j < 4; j++) z[j] = logm(R * Ra[j].transpose()); // body frame increment, R_GtoI
        V3 wn = diff(z[0], z[1], z[2], z[3]);
        double s1 = scale / ref.dt, s2 = s1 / ref.dt;
        near(w, wn, 2e-6 * s1 + 1e-9 + tn * s1, "angular-velocity", d);
        near(v, diff(pa[0], pa[1], pa[2], pa[3]), (2e-6 * s1 + 2e-12 * ls / ref.dt * 1e3 + tn * s1) * (1 + scale), "velocity", d);
        near(al, diff(wa[0], wa[1], wa[2], wa[3]), 1e-2 * s2 * (reg == 2 ? 1 : 0.01) + 1e-8 + tn * s2, "angular-acceleration", d);
        near(a, diff(va[0], va[1], va[2], va[3]), (1e-2 * s2 * (reg == 2 ? 1 : 0.01) + 1e-8 * ls + tn * s2) * (1 + scale), "acceleration", d);
      }
      // the same trajectory gives the same spline
      M3 Rq; V3 pq, wq, vq, alq, aq;
      check(sp2.get_acceleration(q, Rq, pq, wq, vq, alq, aq) && Rq == R3 && pq == p3 && wq == w2 && vq == v2 && alq == al && aq == a, "deterministic", d);
      // stays close to the poses it was fitted to: between them, up to the smoothing of one control step on each side
      auto hi = ref.poses.lower_bound(q);
      if (hi != ref.poses.end() && hi != ref.poses.begin()) {
        auto lo = std::prev(hi);
        double reach = 0;
        M4 N = (q - lo->first < hi->first - q) ? lo->second : hi->second;
        double tn = (q - lo->first < hi->first - q) ? lo->first : hi->first;
        for (auto &o : ref.poses) if (std::abs(o.first - q) <= 2.01 * ref.dt + std::abs(tn - q) || o.first == lo->first || o.first == hi->first) reach = std::max(reach, (o.second.block(0, 3, 3, 1) - N.block(0, 3, 3, 1)).norm());
        // control poses are interpolated along screws, so leave room for their curvature
        double rot = 0;
        for (size_t i = 0; i + 1 < ref.cp.size(); i++) rot = std::max(rot, logm(M3(ref.cp[i].topLeftCorner(3, 3).transpose() * ref.cp[i + 1].topLeftCorner(3, 3))).norm());
        if (how <= 1 && rot < 0.3) { check((p - N.block(0, 3, 3, 1)).norm() <= 1.2 * reach * (1 + rot) + 1e-9 + rot * scale * 2, "close-to-poses", d); count("closeness"); }
      }
    }
    // every interior knot is crossed smoothly
    for (size_t i = 2; i + 3 < ref.ct.size() && i < 12; i++) {
      double k = ref.ct[i], e = 1e-7 * ref.dt + 1e-13 * std::abs(k);
      M3 Ra, Rb2; V3 pa, pb, wa, wb, va, vb, la, lb, aa, ab;
      if (!sp.get_acceleration(k - e, Ra, pa, wa, va, la, aa) || !sp.get_acceleration(k + e, Rb2, pb, wb, vb, lb, ab)) { check(false, "knot-fails", id); continue; }
      double s1 = scale / ref.dt, s2 = s1 / ref.dt, ls = 1 + off.norm(), f = 50 * e / ref.dt + 1e-9;
      near(Ra, Rb2, f * scale + 1e-11, "continuous:orientation", id); near(pa, pb, f * scale * (1 + scale) + 1e-11 * ls, "continuous:position", id);
      near(wa, wb, f * s1 + 1e-9, "continuous:angular-velocity", id); near(va, vb, f * s1 * (1 + scale) + 1e-10 * ls / ref.dt, "continuous:velocity", id);
      near(la, lb, f * s2 * 10 + 1e-8, "continuous:angular-acceleration", id); near(aa, ab, f * s2 * 10 * (1 + scale) + 1e-9 * ls / ref.dt / ref.dt, "continuous:acceleration", id);
      count("knots");
    }
    if (c < 8) sample(id);
  });
  return finish();
}
