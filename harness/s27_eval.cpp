// S27: trajectory alignment, association, errors and their statistics against independent computations.
#include "vh.h"
#include "alignment/AlignTrajectory.h"
#include "alignment/AlignUtils.h"
#include "calc/ResultTrajectory.h"
#include "utils/Statistics.h"
#include "utils/print.h"
using namespace vh;
typedef Eigen::Matrix<double, 7, 1> P7;
using ov_eval::Statistics;

struct Tf { M3 R = M3::Identity(); V3 t = V3::Zero(); double s = 1; };
static P7 mk(const V3 &p, const M3 &R_ItoG) { P7 o; o << p, R2jpl(M3(R_ItoG.transpose())); return o; }
static V3 pos(const P7 &x) { return x.head<3>(); }
static M3 ori(const P7 &x) { return jpl2R(Eigen::Vector4d(x.tail<4>())).transpose(); } // I to G
static P7 apply(const Tf &T, const P7 &x) { return mk(T.s * T.R * pos(x) + T.t, T.R * ori(x)); }
static M3 rz(double a) { return expm(V3(0, 0, a)); }
static bool yawonly(const std::string &m) { return m == "posyaw" || m == "posyawsingle"; }
static Tf rtf(Rng &r, const std::string &m) {
  Tf T;
  if (m == "none") return T;
  T.R = yawonly(m) ? rz(r.u(-M_PI, M_PI)) : r.rot();
  T.t = r.v3(r.p(0.5) ? 1 : 20);
  if (m == "sim3") T.s = r.logu(0.1, 10);
  return T;
}
static std::vector<P7> walk(Rng &r, int n, int shape) { // 0 free, 1 planar, 2 along a line, 3 standing still
  std::vector<P7> o;
  V3 p = r.v3(5), v = r.v3(1), d = r.dir();
  M3 R = r.rot(), B = r.rot();
  for (int k = 0; k < n; k++) {
    v = 0.9 * v + r.v3(0.5);
    p += v * 0.3;
    R = R * expm(r.v3(0.1));
    V3 q = p;
    if (shape == 1) { V3 a = p; a(2) = 1; q = B * a; }
    if (shape == 2) q = d * p(0) + V3(1, 2, 3);
    if (shape == 3) q = V3(1, 2, 3);
    o.push_back(mk(q, R));
  }
  return o;
}
static double cost(const Tf &T, const std::vector<P7> &es, const std::vector<P7> &gt, size_t n) {
  double c = 0;
  for (size_t k = 0; k < n; k++) c += (pos(gt[k]) - T.s * T.R * pos(es[k]) - T.t).squaredNorm();
  return c;
}
/// independent optimum: unit quaternion eigenvector (Horn), or yaw in closed form
static Tf best(const std::vector<P7> &es, const std::vector<P7> &gt, const std::string &m, size_t n) {
  Tf T;
  if (m == "none") return T;
  if (m == "posyawsingle" || m == "se3single") {
    M3 D = ori(gt[0]) * ori(es[0]).transpose();
    T.R = m == "se3single" ? D : rz(std::atan2(D(1, 0) - D(0, 1), D(0, 0) + D(1, 1)));
    T.t = pos(gt[0]) - T.R * pos(es[0]);
    return T;
  }
  V3 a = V3::Zero(), b = V3::Zero();
  for (size_t k = 0; k < n; k++) { a += pos(es[k]) / n; b += pos(gt[k]) / n; }
  M3 S = M3::Zero();
  double ss = 0;
  for (size_t k = 0; k < n; k++) { S += (pos(es[k]) - a) * (pos(gt[k]) - b).transpose(); ss += (pos(es[k]) - a).squaredNorm(); }
  if (m == "posyaw") T.R = rz(std::atan2(S(0, 1) - S(1, 0), S(0, 0) + S(1, 1)));
  else {
    Eigen::Matrix4d N;
    N << S.trace(), S(1, 2) - S(2, 1), S(2, 0) - S(0, 2), S(0, 1) - S(1, 0), 0, S(0, 0) - S(1, 1) - S(2, 2), S(0, 1) + S(1, 0), S(2, 0) + S(0, 2), 0, 0,
        -S(0, 0) + S(1, 1) - S(2, 2), S(1, 2) + S(2, 1), 0, 0, 0, -S(0, 0) - S(1, 1) + S(2, 2);
    Eigen::Vector4d q = Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d>(Eigen::Matrix4d(N.selfadjointView<Eigen::Upper>())).eigenvectors().col(3);
    T.R = Eigen::Quaterniond(q(0), q(1), q(2), q(3)).toRotationMatrix();
  }
  if (m == "sim3") T.s = (T.R * S).trace() / ss;
  T.t = b - T.s * T.R * a;
  return T;
}
static const char *METHODS[6] = {"posyaw", "posyawsingle", "se3", "se3single", "sim3", "none"};
static Tf real(const std::vector<P7> &es, const std::vector<P7> &gt, const std::string &m, int na) {
  Tf T; T.s = -1;
  ov_eval::AlignTrajectory::align_trajectory(es, gt, T.R, T.t, T.s, m, na);
  return T;
}

static void alignment(Rng &r) {
  std::string m = METHODS[r.i(0, 5)];
  int n = r.i(4, 60), shape = r.p(0.6) ? 0 : r.i(0, 2);
  bool single = m == "posyawsingle" || m == "se3single";
  int na = -1;
  if (r.p(0.4)) na = r.i(3, n);
  if (r.p(0.1) && (m == "posyaw" || m == "se3")) { na = 1; single = true; }
  size_t used = single ? 1 : na < 0 ? n : na;
  std::vector<P7> es = walk(r, n, shape), gt;
  Tf T = rtf(r, m);
  for (auto &x : es) gt.push_back(apply(T, x));
  std::string d = fmt("%s, %d poses, %d used, shape %d", m.c_str(), n, (int)used, shape);
  for (size_t k = used; k < gt.size(); k++) if (r.p(0.5)) gt[k] = mk(r.v3(5), r.rot()); // poses that must not matter
  Tf G = real(es, gt, m, na);
  bool unique = shape == 0 || shape == 1 || single || m == "none" || (shape == 2 && m == "posyaw"); // a line leaves the roll about it free
  double L = 1 + pos(es[0]).norm() + T.t.norm();
  near(G.R * G.R.transpose(), M3::Identity(), 1e-9, "align:rotation-orthonormal", d);
  near(G.R.determinant(), 1, 1e-9, "align:rotation-proper", d);
  near(G.s, T.s, 1e-7 * T.s, "align:scale", d);
  if (unique) { near(G.R, T.R, 2e-6, "align:rotation", d); near(G.t, T.t, 2e-5 * L * (1 + T.s), "align:translation", d); }
  double c0 = cost(G, es, gt, used);
  near(c0, 0, 1e-12 * L * L * n * (1 + T.s * T.s), "align:exact-cost", d);
  // noisy: no transform of the family is better
  if (!single && m != "none") {
    double sg = r.logu(1e-3, 3);
    for (auto &x : gt) x = mk(pos(x) + r.v3(sg), ori(x));
    if (r.p(0.1)) for (auto &x : gt) x.head<3>() = Eigen::Vector3d(-x(0), x(1), x(2)); // a mirrored cloud: still no reflection allowed
    G = real(es, gt, m, na);
    near(G.R.determinant(), 1, 1e-9, "align:noisy-proper", d);
    near(G.R * G.R.transpose(), M3::Identity(), 1e-9, "align:noisy-orthonormal", d);
    if (m != "sim3") near(G.s, 1, 0, "align:noisy-scale", d);
    if (yawonly(m)) near(V3(G.R * V3(0, 0, 1)), V3(0, 0, 1), 1e-12, "align:noisy-tilt", d);
    c0 = cost(G, es, gt, used);
    Tf B = best(es, gt, m, used);
    double cb = cost(B, es, gt, used);
    check(c0 <= cb * (1 + 1e-7) + 1e-9, "align:not-optimal", fmt("cost %.9g, independent optimum %.9g ", c0, cb) + d);
    for (int q = 0; q < 12; q++) {
      Tf P = G;
      double h = r.logu(1e-5, 1);
      if (yawonly(m)) P.R = rz(r.n(h)) * P.R; else P.R = expm(r.v3(h)) * P.R;
      P.t += r.v3(h);
      if (m == "sim3") P.s *= std::exp(r.n(h));
      double c = cost(P, es, gt, used);
      check(c0 <= c * (1 + 1e-9) + 1e-9, "align:improvable", fmt("cost %.12g, nearby %.12g ", c0, c) + d);
    }
    count("align:noisy");
  }
  count("align:" + m);
  if (na > 1 && na < n && !single) count("align:subset");
  distinct(fmt("align:%s:%d:%d:%d", m.c_str(), shape, n / 8, (int)used == n));
}

static void association(Rng &r) {
  double off = r.p(0.5) ? 0 : r.n(0.5), tol = r.p(0.5) ? 0.02 : r.logu(0.001, 0.2);
  int ne = r.i(3, 60), ng = r.i(1, 200);
  double de = r.logu(0.002, 0.2), dg = r.logu(0.002, 0.2), t = 100 + r.u();
  std::vector<double> te, tg;
  for (int k = 0; k < ne; k++) { te.push_back(t - off); t += de * (r.p(0.05) ? r.u(1, 30) : r.u(0.2, 1.8)); }
  t = 100 + r.u(-1, 1);
  for (int k = 0; k < ng; k++) { tg.push_back(t); t += dg * (r.p(0.05) ? r.u(1, 30) : r.u(0.2, 1.8)); }
  bool ce = r.p(0.5), cg = r.p(0.5);
  std::vector<P7> pe(ne), pg(ng);
  std::vector<M3> ceo, cep, cgo, cgp;
  for (int k = 0; k < ne; k++) { pe[k].setConstant(k); if (ce) { ceo.push_back(M3::Constant(k)); cep.push_back(M3::Constant(k + 0.5)); } }
  for (int k = 0; k < ng; k++) { pg[k].setConstant(k); if (cg) { cgo.push_back(M3::Constant(k)); cgp.push_back(M3::Constant(k + 0.5)); } }
  std::vector<double> te0 = te, tg0 = tg;
  std::vector<P7> pe0 = pe, pg0 = pg;
  bool both = r.p(0.7);
  if (both) ov_eval::AlignUtils::perform_association(off, tol, te, tg, pe, pg, ceo, cep, cgo, cgp);
  else ov_eval::AlignUtils::perform_association(off, tol, te, tg, pe, pg);
  // reference: each estimate in time order takes the closest ground truth pose after the ones already used
  std::vector<std::pair<int, int>> ref;
  bool tie = false;
  int last = -1;
  for (int i = 0; i < ne; i++) {
    int b = -1; double bd = 1e300, sd = 1e300;
    for (int j = last + 1; j < ng; j++) {
      double d = std::abs(tg0[j] - (te0[i] + off));
      if (std::abs(d - tol) < 1e-9) tie = true;
      if (d < bd) { sd = bd; bd = d; b = j; } else sd = std::min(sd, d);
    }
    if (b >= 0 && bd < tol) { if (sd - bd < 1e-9) tie = true; ref.push_back({i, b}); last = b; }
  }
  if (tie) { count("association:tie"); return; }
  std::string d = fmt("%d est, %d gt, tol %.4f, offset %.3f", ne, ng, tol, off);
  count("association"); count("association:pairs", (long)ref.size());
  if (ref.size() < te0.size()) count("association:unmatched", (long)(te0.size() - ref.size()));
  distinct(fmt("assoc:%d:%d:%d:%d:%d", (int)std::log2(de / dg), (int)std::log2(tol / dg), ce, cg, (int)ref.size() / 4));
  if (!check(te.size() == ref.size() && tg.size() == ref.size() && pe.size() == ref.size() && pg.size() == ref.size(), "association:count", fmt("%d instead of %d; ", (int)te.size(), (int)ref.size()) + d)) return;
  size_t nc = both && ce ? ref.size() : 0;
  if (both) check(ceo.size() == nc && cep.size() == nc && cgo.size() == nc && cgp.size() == nc, "association:covariances", d);
  for (size_t k = 0; k < ref.size(); k++) {
    bool ok = check(pe[k](0) == ref[k].first && pg[k](0) == ref[k].second, "association:pair", fmt("pair %d is (%g,%g) instead of (%d,%d); ", (int)k, pe[k](0), pg[k](0), ref[k].first, ref[k].second) + d);
    if (!ok) return;
    near(te[k], tg0[ref[k].second], 0, "association:time", d);
    near(tg[k], tg0[ref[k].second], 0, "association:time", d);
    if (nc && ceo.size() == nc && cgo.size() == nc) {
      check(ceo[k](0) == ref[k].first && cep[k](0) == ref[k].first + 0.5, "association:est-cov", d);
      check(cg ? cgo[k](0) == ref[k].second && cgp[k](0) == ref[k].second + 0.5 : cgo[k].isZero(0) && cgp[k].isZero(0), "association:gt-cov", d);
    }
  }
}

static void stats(const Statistics &s, const std::string &key, const std::string &d) {
  if (s.values.empty()) return;
  Eigen::VectorXd v = Eigen::Map<const Vec>(s.values.data(), s.values.size());
  std::vector<double> o(s.values);
  std::sort(o.begin(), o.end());
  size_t n = o.size();
  double sc = 1e-9 * (1 + v.cwiseAbs().maxCoeff());
  near(s.mean, v.mean(), sc, key + ":mean", d);
  near(s.rmse, std::sqrt(v.squaredNorm() / n), sc, key + ":rmse", d);
  near(s.min, o[0], 0, key + ":min", d);
  near(s.max, o[n - 1], 0, key + ":max", d);
  near(s.median, n % 2 ? o[n / 2] : 0.5 * (o[n / 2] + o[n / 2 - 1]), sc, key + ":median", d);
  if (n > 1) {
    double sd = std::sqrt((v.array() - v.mean()).square().sum() / (n - 1));
    near(s.std, sd, sc, key + ":std", d);
    near(s.ninetynine, v.mean() + 2.326 * sd, 3 * sc, key + ":ninetynine", d);
  }
}
static void statistics(Rng &r) {
  Statistics s;
  for (int q = 0, m = r.i(1, 3); q < m; q++) {
    if (q && r.p(0.5)) { s.clear(); check(s.values.empty() && s.timestamps.empty() && s.values_bound.empty(), "statistics:clear"); }
    int n = r.i(1, 50);
    double sc = r.logu(1e-6, 1e6), b = r.n(1);
    for (int k = 0; k < n; k++) { s.timestamps.push_back(k); s.values.push_back(sc * (b + (r.p(0.2) ? 0 : r.n()))); }
    s.calculate();
    stats(s, "statistics", fmt("%d values, calculation %d", (int)s.values.size(), q));
    count("statistics");
    distinct(fmt("stats:%d:%d", q, (int)s.values.size()));
  }
}

static void save(const std::string &p, const std::vector<double> &t, const std::vector<P7> &x, const std::vector<M3> &co, const std::vector<M3> &cp) {
  std::ofstream f(p, std::ios::trunc);
  f << "# timestamp tx ty tz qx qy qz qw\n";
  for (size_t k = 0; k < t.size(); k++) {
    f << fmt("%.9f", t[k]);
    for (int c = 0; c < 7; c++) f << fmt(" %.17g", x[k](c));
    if (!co.empty()) for (const M3 *m : {&co[k], &cp[k]}) f << fmt(" %.17g %.17g %.17g %.17g %.17g %.17g", (*m)(0, 0), (*m)(0, 1), (*m)(0, 2), (*m)(1, 1), (*m)(1, 2), (*m)(2, 2));
    f << "\n";
  }
}
static double ang(const M3 &R) { return logm(R).norm(); }
static V3 rpy(const M3 &R) { return V3(std::atan2(R(2, 1), R(2, 2)), std::atan2(-R(2, 0), std::hypot(R(0, 0), R(1, 0))), std::atan2(R(1, 0), R(0, 0))); }
static double wrap(double a) { return std::atan2(std::sin(a), std::cos(a)); }
static void series(const Statistics &s, const std::vector<double> &t, const std::vector<double> &v, double tol, const std::string &key, const std::string &d) {
  if (!check(s.values.size() == v.size() && s.timestamps.size() == v.size(), key + ":count", fmt("%d values, %d expected; ", (int)s.values.size(), (int)v.size()) + d)) return;
  for (size_t k = 0; k < v.size(); k++) {
    if (v[k] > 1e200) continue; // not judged
    near(s.values[k], v[k], tol * (1 + std::abs(v[k])), key + ":value", fmt("index %d ", (int)k) + d);
    near(s.timestamps[k], t[k], 1e-6, key + ":time", d);
  }
  stats(s, key + ":stat", d);
}

static void results(Rng &r) {
  std::string m = METHODS[r.i(0, 5)], fe = ctx().a.scratch + "/est.txt", fg = ctx().a.scratch + "/gt.txt";
  int n = r.i(8, 120);
  bool cov = r.p(0.6), gcov = r.p(0.3), equal = r.p(0.15);
  double dt = 0.05 + r.u(0, 0.1), sp = r.logu(1e-3, 0.3), so = r.logu(1e-3, 0.3);
  std::vector<P7> gt = walk(r, n, 0), es;
  Tf T = equal ? Tf() : rtf(r, m), Ti;
  Ti.R = T.R.transpose(); Ti.s = 1 / T.s; Ti.t = -Ti.s * Ti.R * T.t;
  std::vector<double> tg, te;
  for (int k = 0; k < n; k++) tg.push_back(1000 + k * dt);
  std::vector<M3> ceo, cep, cgo, cgp;
  std::vector<P7> gs; std::vector<double> ts; std::vector<P7> ess;
  int stride = r.i(1, 3);
  for (int k = 0; k < n; k++) {
    if (gcov) { cgo.push_back(r.psd(3, 0.01)); cgp.push_back(r.psd(3, 0.01)); }
    if (k % stride || (r.p(0.1) && n - k > 8)) continue;
    P7 x = apply(Ti, gt[k]);
    if (!equal) x = mk(pos(x) + r.v3(sp), ori(x) * expm(r.v3(so)));
    if (r.p(0.1)) x.tail<4>() *= -1; // both signs are the same orientation
    te.push_back(tg[k] + (equal ? 0 : r.u(-0.015, 0.015)));
    es.push_back(x); ess.push_back(x); gs.push_back(gt[k]); ts.push_back(tg[k]);
    if (cov) { ceo.push_back(r.psd(3, so)); cep.push_back(r.psd(3, sp)); }
  }
  if (es.size() < 4) return;
  // estimates without any ground truth
  if (r.p(0.5)) { te.push_back(tg.back() + 5); es.push_back(mk(r.v3(), r.rot())); if (cov) { ceo.push_back(r.psd(3)); cep.push_back(r.psd(3)); } }
  save(fe, te, es, ceo, cep);
  save(fg, tg, gt, cgo, cgp);
  size_t N = ess.size();
  std::string d = fmt("%s, %d matched of %d, covariance %d, noise %.3g m %.3g rad", m.c_str(), (int)N, n, cov, sp, so);
  ov_eval::ResultTrajectory R(fe, fg, m);
  Tf A = best(ess, gs, m, N), B = best(gs, ess, m, N);
  std::vector<P7> ea, ga;
  for (size_t k = 0; k < N; k++) { ea.push_back(apply(A, ess[k])); ga.push_back(apply(B, gs[k])); }
  const double D = 180 / M_PI, tol = 2e-6;
  Statistics a, b;
  std::vector<double> vo, vp, vo2, vp2;
  if (r.p(0.3)) { R.calculate_ate_2d(a, b); } // results must not accumulate
  R.calculate_ate(a, b);
  for (size_t k = 0; k < N; k++) {
    M3 E = ori(ea[k]).transpose() * ori(gs[k]);
    V3 w = logm(M3(ori(ea[k]) * ori(gs[k]).transpose()));
    vo.push_back(w.norm() > 3.0 ? 1e300 : D * ang(E));
    vp.push_back((pos(gs[k]) - pos(ea[k])).norm());
    vo2.push_back(w.norm() > 3.0 ? 1e300 : D * w(2));
    vp2.push_back((pos(gs[k]) - pos(ea[k])).head<2>().norm());
  }
  series(a, ts, vo, tol * 10, "ate:ori", d);
  series(b, ts, vp, tol * 20, "ate:pos", d);
  if (equal && m != "none") { check(a.rmse < 1e-4 && b.rmse < 1e-5 && a.max < 1e-4 && b.max < 1e-5, "equal:nonzero", fmt("%.3g deg %.3g m ", a.max, b.max) + d); count("results:equal"); }
  Statistics a2, b2;
  R.calculate_ate_2d(a2, b2);
  series(b2, ts, vp2, tol * 20, "ate2d:pos", d);
  // heading error: the sign convention is the estimate's, only its magnitude is compared
  {
    Statistics q = a2; std::vector<double> v = vo2;
    bool flip = false;
    for (size_t k = 0; k < N; k++) if (v[k] < 1e200 && std::abs(v[k]) > 1e-3) { flip = (v[k] > 0) != (q.values.size() > k && q.values[k] > 0); break; }
    if (flip) for (auto &x : v) if (x < 1e200) x = -x;
    series(q, ts, v, tol * 20, "ate2d:ori", d);
  }
  // relative errors
  std::vector<double> acc{0};
  for (size_t k = 1; k < N; k++) acc.push_back(acc[k - 1] + (pos(gs[k]) - pos(gs[k - 1])).norm());
  std::vector<double> segs;
  for (int q = 0, c = r.i(1, 3); q < c; q++) segs.push_back(r.u(0.5, 0.8 * acc.back() + 0.6));
  std::map<double, std::pair<Statistics, Statistics>> rpe;
  R.calculate_rpe(segs, rpe);
  check(rpe.size() == segs.size(), "rpe:segments", d);
  for (double L : segs) {
    std::vector<double> t, o, p;
    bool tie = false;
    for (size_t i = 0; i < N; i++) {
      int bi = -1; double be = 0.5;
      for (size_t j = i; j < N; j++) { double e = std::abs(acc[j] - (acc[i] + L)); if (std::abs(e - be) < 1e-9) tie = true; if (e < be) { be = e; bi = j; } }
      if (bi < 0) continue;
      // motion from start to end seen from the start, estimate against truth
      M3 Re = ori(ea[i]).transpose() * ori(ea[bi]), Rg = ori(gs[i]).transpose() * ori(gs[bi]);
      V3 pe = ori(ea[i]).transpose() * (pos(ea[bi]) - pos(ea[i])), pg = ori(gs[i]).transpose() * (pos(gs[bi]) - pos(gs[i]));
      double an = ang(M3(Rg.transpose() * Re));
      t.push_back(ts[i]); o.push_back(an > 3 ? 1e300 : D * an); p.push_back((pe - pg).norm());
    }
    if (tie || !rpe.count(L)) continue;
    series(rpe.at(L).first, t, o, tol * 20, "rpe:ori", fmt("segment %.3f ", L) + d);
    series(rpe.at(L).second, t, p, tol * 40, "rpe:pos", fmt("segment %.3f ", L) + d);
    count("rpe:pairs", (long)t.size());
  }
  // normalized errors
  Statistics no, np;
  R.calculate_nees(no, np);
  if (!cov) check(no.values.empty() && np.values.empty(), "nees:without-covariance", d);
  else {
    std::vector<double> o, p;
    for (size_t k = 0; k < N; k++) {
      V3 e = logm(M3(ori(ga[k]).transpose() * ori(ess[k]))), q = pos(ga[k]) - pos(ess[k]);
      o.push_back(e.norm() > 3 ? 1e300 : e.dot(ceo[k].ldlt().solve(e)));
      p.push_back(q.dot(cep[k].ldlt().solve(q)));
    }
    series(no, ts, o, 1e-3, "nees:ori", d);
    series(np, ts, p, 1e-3, "nees:pos", d);
    if (equal && m != "none") check(no.max < 1e-3 && np.max < 1e-3, "equal:nees", d);
    count("results:nees");
  }
  // component errors with their three sigma bounds
  Statistics c[9];
  R.calculate_error(c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8]);
  std::vector<double> v[9], bd[9];
  for (size_t k = 0; k < N; k++) {
    V3 e = pos(ga[k]) - pos(ess[k]);
    M3 Re = ori(ess[k]), Rg = ori(ga[k]);
    V3 l = logm(M3(Rg.transpose() * Re)); // local error: R_gt(GtoI) = Exp(...) R_est(GtoI)
    double th = l.norm();
    // the code reports twice the quaternion's vector part, equal to first order
    V3 lq = th < 1e-12 ? l : V3(l / th * 2 * std::sin(th / 2));
    V3 g = -D * (Re * lq), ypr = rpy(Rg) - rpy(Re);
    for (int q = 0; q < 3; q++) {
      v[q].push_back(e(q));
      v[3 + q].push_back(th > 3 ? 1e300 : g(q));
      bool sing = std::abs(std::cos(rpy(Re)(1))) < 0.05 || std::abs(std::cos(rpy(Rg)(1))) < 0.05;
      double w = wrap(ypr(q));
      v[6 + q].push_back(sing || std::abs(w) > 3.1 ? 1e300 : D * w);
      if (cov) {
        bd[q].push_back(3 * std::sqrt(cep[k](q, q)));
        M3 cg = Re * ceo[k] * Re.transpose();
        bd[3 + q].push_back(3 * D * std::sqrt(cg(q, q)));
        Mat J = numjac4([&](const Vec &x) { V3 y = rpy(Re * expm(V3(x))) - rpy(Re); for (int i = 0; i < 3; i++) y(i) = wrap(y(i)); return Vec(y); }, 3, 1e-4);
        Mat cr = J * ceo[k] * J.transpose();
        bd[6 + q].push_back(sing ? 1e300 : 3 * D * std::sqrt(cr(q, q)));
      }
    }
  }
  // the sign of the reported orientation error is a convention: one sign for all components
  bool flip = false, set = false;
  for (int q = 3; q < 6 && !set; q++) for (size_t k = 0; k < N && !set; k++) if (v[q][k] < 1e200 && std::abs(v[q][k]) > 1e-3 && k < c[q].values.size()) { flip = v[q][k] * c[q].values[k] < 0; set = true; }
  if (flip) for (int q = 3; q < 6; q++) for (auto &x : v[q]) if (x < 1e200) x = -x;
  static const char *names[9] = {"posx", "posy", "posz", "orix", "oriy", "oriz", "roll", "pitch", "yaw"};
  for (int q = 0; q < 9; q++) {
    series(c[q], ts, v[q], tol * 40, std::string("error:") + names[q], d);
    if (!check(c[q].values_bound.size() == bd[q].size(), std::string("bound:count:") + names[q], d)) continue;
    for (size_t k = 0; k < bd[q].size(); k++) if (bd[q][k] < 1e200) near(c[q].values_bound[k], bd[q][k], 1e-5 * bd[q][k], std::string("bound:") + names[q], d);
  }
  // transforming the estimate within the alignment's freedom changes nothing, nor does moving both together
  if (m != "none" && !equal) {
    Tf U = rtf(r, m);
    std::vector<P7> e2 = es, g2 = gt;
    bool bothmove = r.p(0.5) && m != "sim3";
    for (auto &x : e2) x = apply(U, x);
    if (bothmove) for (auto &x : g2) x = apply(U, x);
    save(fe, te, e2, ceo, cep);
    save(fg, tg, g2, cgo, cgp);
    ov_eval::ResultTrajectory R2(fe, fg, m);
    Statistics x, y;
    R2.calculate_ate(x, y);
    series(x, ts, vo, tol * 40, "invariance:ori", d);
    series(y, ts, vp, tol * 100, "invariance:pos", d);
    count("results:invariance");
  }
  count("results:" + m);
  distinct(fmt("res:%s:%d:%d:%d:%d", m.c_str(), cov, gcov, stride, (int)N / 10));
}

int main(int argc, char **argv) {
  init(argc, argv);
  ov_core::Printer::setPrintLevel("SILENT");
  run_cases(ctx().a.thorough() ? 80000 : 4000, [](long c, Rng &r) {
    switch (c / 8 % 5) {
    case 0: case 1: alignment(r); break;
    case 2: association(r); break;
    case 3: results(r); break;
    default: statistics(r);
    }
  });
  return finish();
}
