// S11: triangulation and refinement against an independent least-squares solution, the configured limits, and the true point.
#include "vh.h"
#include "feat/Feature.h"
#include "feat/FeatureInitializer.h"
using namespace vh;
typedef ov_core::FeatureInitializer::ClonePose CP;
typedef std::unordered_map<size_t, std::unordered_map<double, CP>> Clones;
struct Obs { size_t cam; double t; M3 R; V3 p; Eigen::Vector2f z; };
typedef std::shared_ptr<ov_core::Feature> FP;
static FP make(const std::vector<Obs> &o, Clones &cl, size_t id) {
  FP f = std::make_shared<ov_core::Feature>();
  f->featid = id;
  f->to_delete = false;
  for (auto &x : o) {
    f->timestamps[x.cam].push_back(x.t);
    f->uvs[x.cam].push_back(x.z);
    f->uvs_norm[x.cam].push_back(x.z);
    cl[x.cam].insert({x.t, CP(x.R, x.p)});
  }
  f->p_FinA = V3(77, 77, 77);
  f->p_FinG = V3(88, 88, 88);
  return f;
}
/// squared reprojection error of a global point
static double cost(const std::vector<Obs> &o, const V3 &p) {
  double c = 0;
  for (auto &x : o) { V3 q = x.R * (p - x.p); c += (x.z.cast<double>() - Eigen::Vector2d(q(0) / q(2), q(1) / q(2))).squaredNorm(); }
  return c;
}
/// independent minimizer (many damped Gauss-Newton steps on the global position)
static V3 best(const std::vector<Obs> &o, V3 p) {
  double c = cost(o, p), lam = 1e-4;
  for (int k = 0; k < 60; k++) {
    M3 H = M3::Zero();
    V3 g = V3::Zero();
    for (auto &x : o) {
      V3 q = x.R * (p - x.p);
      Eigen::Matrix<double, 2, 3> J;
      J << 1 / q(2), 0, -q(0) / q(2) / q(2), 0, 1 / q(2), -q(1) / q(2) / q(2);
      J = J * x.R;
      Eigen::Vector2d e = x.z.cast<double>() - Eigen::Vector2d(q(0) / q(2), q(1) / q(2));
      H += J.transpose() * J; g += J.transpose() * e;
    }
    M3 D = H.diagonal().asDiagonal();
    V3 d = (H + lam * D).ldlt().solve(g);
    double n = cost(o, p + d);
    if (n < c) { p += d; c = n; lam = std::max(lam / 5, 1e-12); if (d.norm() < 1e-10 * (1 + p.norm())) break; } else lam *= 8;
    if (lam > 1e12) break;
  }
  return p;
}
int main(int argc, char **argv) {
  vh::init(argc, argv);
  run_cases(ctx().a.thorough() ? 300000 : 16000, [&](long c, Rng &r) {
    ov_core::FeatureInitializerOptions op;
    if (r.p(0.3)) { op.min_dist = r.logu(0.05, 2); op.max_dist = op.min_dist * r.logu(3, 500); op.max_baseline = r.logu(5, 500); op.max_cond_number = r.logu(50, 1e5); }
    if (r.p(0.2)) op.max_runs = r.i(1, 20);
    int kind = r.i(0, 7); // 0-2 good geometry, 3 pure rotation, 4 tiny baseline, 5 behind, 6 far or near, 7 straight line towards the point
    int ncam = r.i(1, 3), n = r.i(2, 11);
    double noise = r.p(0.4) ? 0 : r.logu(1e-4, 1e-2);
    double depth = kind == 6 ? r.logu(0.02, 500) : r.logu(0.5, 20);
    double base = kind == 3 ? 0 : kind == 4 ? depth * r.logu(1e-5, 1e-2) : depth * r.logu(0.02, 0.6);
    M3 R0 = r.rot();
    V3 p0 = r.v3(20), dir = r.dir();
    V3 f0(r.u(-0.5, 0.5) * depth, r.u(-0.5, 0.5) * depth, depth); // in the frame of R0,p0
    V3 pf = R0.transpose() * f0 + p0;
    if (kind == 7) dir = (pf - p0).normalized();
    std::vector<Obs> obs;
    double t = r.u(0, 1000);
    std::vector<M3> Rc; std::vector<V3> pc;
    for (int q = 0; q < ncam; q++) { Rc.push_back(q == 0 ? M3::Identity() : expm(r.v3(0.1))); pc.push_back(q == 0 || kind == 3 || kind == 4 || kind == 7 ? V3::Zero() : r.v3(0.1 * depth)); }
    for (int i = 0; i < n; i++) {
      t += r.u(0.03, 0.2);
      M3 Ri = expm(r.v3(kind == 7 ? 0.02 : 0.08)) * R0;
      V3 pi = p0 + (kind == 7 ? dir * r.u(0, 0.5) * depth : V3(base * (dir * r.u(-1, 1) + r.v3(0.3))));
      for (int q = 0; q < ncam; q++) {
        if (q > 0 && !r.p(0.7)) continue;
        Obs o;
        o.cam = q * (r.p(0) ? 1 : 1); o.t = t;
        o.R = Rc[q] * Ri; o.p = pi + Ri.transpose() * pc[q];
        V3 x = o.R * (pf - o.p);
        if (kind == 5) x = -x; // seen through the back: the same image, the point is behind
        if (x(2) * (kind == 5 ? -1 : 1) < 0.05 * depth) continue;
        o.z << (float)(x(0) / x(2) + r.n(noise)), (float)(x(1) / x(2) + r.n(noise));
        obs.push_back(o);
      }
    }
    if (kind == 5) for (auto &o : obs) { o.R = o.R.transpose().eval() * 0 + (Eigen::DiagonalMatrix<double, 3>(-1, 1, -1) * o.R); o.z(0) = -o.z(0) * -1 * -1; } // face the other way
    if (obs.size() < 2) { count("skipped"); return; }
    if (kind == 5) for (auto &o : obs) { V3 x = o.R * (pf - o.p); o.z << (float)(x(0) / x(2)), (float)(x(1) / x(2)); }
    size_t maxn = 0;
    std::map<size_t, size_t> per;
    for (auto &o : obs) maxn = std::max(maxn, ++per[o.cam]);
    Clones cl;
    FP f = make(obs, cl, 5);
    ov_core::FeatureInitializer init(op);
    bool lin1 = r.p(0.35);
    std::string id = fmt("kind=%d cams=%d obs=%zu depth=%.3f baseline=%.4f noise=%.2g 1d=%d", kind, ncam, obs.size(), depth, base, noise, lin1), mk = lin1 ? ":1d" : ":3d";
    distinct(fmt("kind%d cams%d obs%zu depth%d base%d noise%d 1d%d", kind, ncam, obs.size() / 4, (int)std::log2(depth), (int)std::log10(base / depth + 1e-9), noise > 0, lin1));
    bool ok = lin1 ? init.single_triangulation_1d(f, cl) : init.single_triangulation(f, cl);
    // the anchor: a camera with the most measurements, its last measurement
    check(f->anchor_cam_id >= 0 && per.count(f->anchor_cam_id) && per[f->anchor_cam_id] == maxn, "anchor-camera" + mk, id);
    const Obs *an = nullptr;
    for (auto &o : obs) if ((int)o.cam == f->anchor_cam_id) an = &o;
    if (!an) return;
    if (!check(f->anchor_clone_timestamp == an->t, "anchor-time" + mk, id)) return;
    // independent linear solution in the global frame
    M3 A = M3::Zero();
    V3 b = V3::Zero(), ba = (an->R.transpose() * V3(an->z(0), an->z(1), 1)).normalized();
    double a1 = 0, b1 = 0;
    for (auto &o : obs) {
      V3 d = (o.R.transpose() * V3(o.z(0), o.z(1), 1)).normalized();
      M3 P = M3::Identity() - d * d.transpose();
      A += P; b += P * (o.p - an->p);
      if (&o != an) { a1 += ba.dot(P * ba); b1 += ba.dot(P * (o.p - an->p)); }
    }
    Eigen::SelfAdjointEigenSolver<M3> es(A);
    double e0 = es.eigenvalues()(0), e2 = es.eigenvalues()(2), cond = e2 / std::max(e0, 1e-300);
    V3 pl = lin1 ? V3(ba * (b1 / a1)) : V3(A.ldlt().solve(b));
    double zl = (an->R * pl)(2), acc = lin1 ? 1e-12 / std::max(a1, 1e-16) : 1e-13 * cond; // relative accuracy of the solution
    bool decided = acc < 1e-3 && (e0 > 1e-11 * e2), good = false, bad = false;
    double mg = 1e-4 + 10 * acc;
    if (decided) {
      good = zl > op.min_dist * (1 + mg) && zl < op.max_dist * (1 - mg) && (lin1 || cond < op.max_cond_number * (1 - 1e-3));
      bad = zl < op.min_dist * (1 - mg) || zl > op.max_dist * (1 + mg) || (!lin1 && cond > op.max_cond_number * (1 + 1e-3));
    } else if (!lin1 && cond > 10 * op.max_cond_number) bad = true;
    if (good) { check(ok, "linear:good-point-rejected" + mk, id + fmt(" z=%.4f cond=%.1f", zl, cond)); count("linear:good"); }
    if (bad) { check(!ok, "linear:bad-point-accepted" + mk, id + fmt(" z=%.4f cond=%.1f limits %.3f..%.3f, %.0f", zl, cond, op.min_dist, op.max_dist, op.max_cond_number)); count("linear:bad"); count(fmt("linear:bad:kind%d", kind)); }
    if (!ok) {
      check(f->p_FinG == V3(88, 88, 88), "linear:wrote-after-failure" + mk, id);
      return;
    }
    if (kind == 5) check(false, "linear:behind-camera-accepted" + mk, id);
    double sc = pl.norm() + 1e-3;
    if (decided && good) near(V3(f->p_FinG - an->p), pl, (1e-7 + 20 * acc) * sc, "linear:point" + mk, id);
    near(V3(an->R * (f->p_FinG - an->p)), f->p_FinA, 1e-9 * (sc + an->p.norm() + 1), "linear:frames" + mk, id);
    // exact data give the true point, as far as single precision images determine it
    double zerr = noise + 1.2e-7; // image error
    double pe = 30 * zerr * depth * (depth / std::max(base, 1e-9)) * (lin1 ? 2 : 1);
    if (noise == 0 && kind <= 2 && pe < 0.05 * depth) { near(f->p_FinG, pf, pe + 1e-7 * pf.norm(), "linear:true-point" + mk, id); count("linear:exact"); }
    // unrelated poses do not matter, nor does the order of the cameras
    {
      Clones c2;
      std::vector<Obs> o2;
      std::vector<size_t> cams;
      for (auto &k : per) cams.push_back(k.first);
      for (size_t i = cams.size(); i-- > 1;) std::swap(cams[i], cams[r.i(0, (int)i)]);
      for (size_t q : cams) for (auto &o : obs) if (o.cam == q) o2.push_back(o);
      FP g = make(o2, c2, 5);
      for (int i = 0; i < 3; i++) c2[r.i(0, 4)].insert({r.u(2000, 3000), CP(r.rot(), r.v3(5))});
      bool ok2 = lin1 ? init.single_triangulation_1d(g, c2) : init.single_triangulation(g, c2);
      bool sameanchor = g->anchor_cam_id == f->anchor_cam_id;
      if (sameanchor && good) { check(ok2, "order:decision" + mk, id); if (ok2) near(g->p_FinG, f->p_FinG, 1e-8 * (sc + an->p.norm()) + 20 * acc * sc, "order:point" + mk, id); count("order:same-anchor"); }
      else if (!sameanchor && !lin1 && ok2) { near(g->p_FinG, f->p_FinG, 1e-8 * (sc + an->p.norm()) + 20 * acc * sc, "order:point-other-anchor" + mk, id); count("order:other-anchor"); }
    }
    // refinement
    V3 start = f->p_FinG, startA = f->p_FinA;
    bool behind = false; // a starting point that some camera cannot see has no meaningful error
    for (auto &o : obs) if ((o.R * (start - o.p))(2) < 0.02 * depth) behind = true;
    double c0 = cost(obs, start);
    bool gn = init.single_gaussnewton(f, cl);
    count("refined");
    V3 pa = f->p_FinA, pg = an->R.transpose() * pa + an->p; // where it went, also when it was rejected
    double ba_max = 0;
    V3 un = (pg - an->p).normalized();
    for (auto &o : obs) { V3 d = o.p - an->p; ba_max = std::max(ba_max, (d - un * un.dot(d)).norm()); }
    double ratio = pa.norm() / std::max(ba_max, 1e-300);
    bool ggood = pa.allFinite() && pa(2) > op.min_dist * (1 + 1e-6) && pa(2) < op.max_dist * (1 - 1e-6) && ratio < op.max_baseline * (1 - 1e-6);
    bool gbad = !pa.allFinite() || pa(2) < op.min_dist * (1 - 1e-6) || pa(2) > op.max_dist * (1 + 1e-6) || ratio > op.max_baseline * (1 + 1e-6);
    if (ggood) { check(gn, "refine:good-point-rejected", id + fmt(" z=%.4f ratio=%.2f", pa(2), ratio)); count("refine:good"); }
    if (gbad) { check(!gn, "refine:bad-point-accepted", id + fmt(" z=%.4f ratio=%.2f of %.2f", pa(2), ratio, op.max_baseline)); count("refine:bad"); if (ba_max < 1e-9 * pa.norm()) count("refine:no-baseline"); }
    double fl = obs.size() * 4 * 1.5e-14 + 3e-7 * std::sqrt(c0 * obs.size()) * 1; // single precision residuals
    if (gn) {
      near(f->p_FinG, pg, 1e-9 * (1 + pg.norm()), "refine:frames", id);
      double c1 = cost(obs, f->p_FinG);
      check(c1 <= c0 * (1 + 1e-5) + fl, "refine:error-grew", id + fmt(" %.6g -> %.6g", c0, c1));
      if (!behind && kind <= 2 && op.max_runs >= 5 && base > 0.05 * depth && noise * 20 < base / depth) {
        V3 opt = best(obs, start);
        double cb = cost(obs, opt);
        check(c1 <= cb * 1.02 + 2 * fl, "refine:not-minimal", id + fmt(" start %.6g reached %.6g minimum %.6g", c0, c1, cb));
        count("refine:minimum");
        if (noise == 0) { near(f->p_FinG, pf, pe + 1e-7 * pf.norm(), "refine:true-point", id); count("refine:exact"); }
      }
    }
    if (c < 16) sample(id + fmt(" linear=%d refined=%d z=%.3f", ok, gn, pa(2)));
  });
  return finish();
}
