// S08: visual updates against one joint Gaussian update with exactly the accepted features.
#include "vj.h"
#include "feat/Feature.h"
#include "feat/FeatureInitializer.h"
#include "feat/FeatureInitializerOptions.h"
#include "update/UpdaterMSCKF.h"
#include "update/UpdaterOptions.h"
#include "update/UpdaterSLAM.h"
#include <boost/math/distributions/chi_squared.hpp>
using namespace vj;
using ov_core::Feature;
using ov_core::FeatureInitializer;
using ov_msckf::StateHelper;
using ov_msckf::StateOptions;
using ov_type::Landmark;
typedef std::shared_ptr<Feature> FP;
struct Meas { size_t cam; double t; V2 uv; };
struct Sys { Vec r; Mat Hf, Hx; }; // Hx over all the variables given

static std::vector<Meas> meas_of(const Feature &f) {
  std::vector<Meas> m;
  for (auto &c : f.timestamps)
    for (size_t k = 0; k < c.second.size(); k++) m.push_back({c.first, c.second[k], V2(f.uvs.at(c.first)[k].head(2).cast<double>())});
  return m;
}
/// residual and derivatives of a track with respect to the feature (in the given representation) and all variables
/// lin is the linearization point of the feature: global position used for the residual and for the derivative
static Sys linearize(const SP &s, const std::vector<TP> &vars, const std::vector<bool> &fish, Rep rep, int acam, double at, const V3 &pG, const V3 &pGlin, const std::vector<Meas> &ms) {
  const StateOptions &o = s->_options;
  bool rel = relrep(rep), fej = o.do_fej;
  int n = total(vars), dim = rep == Rep::ANCHORED_INVERSE_DEPTH_SINGLE ? 1 : 3;
  std::map<TP, int> col;
  { int a = 0; for (auto &v : vars) { col[v] = a; a += v->size(); } }
  Sys S{Vec::Zero(2 * ms.size()), Mat::Zero(2 * ms.size(), dim), Mat::Zero(2 * ms.size(), n)};
  Pose CA = rel ? pose_of(s->_calib_IMUtoCAM.at(acam), false) : Pose(), IAl = rel ? pose_of(s->_clones_IMU.at(at), fej) : Pose();
  V3 lin = rel ? global_to_cam(pGlin, IAl, CA) : pGlin;
  Vec lam = rep_from_xyz(rep, lin);
  V3 bear = lin / lin(2);
  for (size_t k = 0; k < ms.size(); k++) {
    auto &m = ms[k];
    Pose Ii = pose_of(s->_clones_IMU.at(m.t), fej), Ci = pose_of(s->_calib_IMUtoCAM.at(m.cam), false);
    Vec cam = s->_cam_intrinsics.at(m.cam)->value();
    bool fi = fish[m.cam];
    V3 qc = global_to_cam(pG, pose_of(s->_clones_IMU.at(m.t), false), Ci);
    V2 un = qc.head(2) / qc(2);
    S.r.segment(2 * k, 2) = m.uv - distort(cam, fi, un);
    Mat Dn = numjac4([&](const Vec &e) -> Vec { return distort(cam, fi, un + V2(e)); }, 2, 1e-4);
    auto ray = [&](const Vec &dl, const Vec &dci, const Vec &dext, const Vec &dca, const Vec &daext) -> Vec {
      V3 p = rel ? cam_to_global(rep_to_xyz(rep, lam + dl, bear), perturb(IAl, dca), perturb(CA, daext)) : rep_to_xyz(rep, lam + dl, bear);
      V3 q = global_to_cam(p, perturb(Ii, dci), perturb(Ci, dext));
      return V2(q.head(2) / q(2));
    };
    Vec z6 = Vec::Zero(6), zl = Vec::Zero(dim);
    double hl = 1e-4 * std::min(1.0, lam.cwiseAbs().maxCoeff());
    if (dim == 1) hl = 1e-3 * lam(0);
    else if (rep != Rep::GLOBAL_3D && rep != Rep::ANCHORED_3D) hl = std::min(hl, 1e-3 * lam(2));
    S.Hf.middleRows(2 * k, 2) = Dn * numjac4([&](const Vec &e) { return ray(e, z6, z6, z6, z6); }, dim, hl);
    auto put = [&](const TP &v, const Mat &J) { S.Hx.block(2 * k, col.at(v), 2, J.cols()) += J; };
    auto n6 = [&](int w) { return Mat(Dn * numjac4([&](const Vec &e) { return ray(zl, w == 0 ? e : z6, w == 1 ? e : z6, w == 2 ? e : z6, w == 3 ? e : z6); }, 6, 1e-4)); };
    put(s->_clones_IMU.at(m.t), n6(0));
    if (o.do_calib_camera_pose) put(s->_calib_IMUtoCAM.at(m.cam), n6(1));
    if (rel) { put(s->_clones_IMU.at(at), n6(2)); if (o.do_calib_camera_pose) put(s->_calib_IMUtoCAM.at(acam), n6(3)); }
    if (o.do_calib_camera_intrinsics) put(s->_cam_intrinsics.at(m.cam), numjac4([&](const Vec &e) -> Vec { return distort(cam + e, fi, un); }, 8, 1e-4));
  }
  return S;
}
/// removes the first k columns of Hf from the system
static void eliminate(Mat Hf, std::vector<Mat *> ms, Vec &r) {
  Eigen::HouseholderQR<Mat> qr(Hf);
  Mat Q = qr.householderQ() * Mat::Identity(Hf.rows(), Hf.rows());
  Mat N = Q.rightCols(Hf.rows() - Hf.cols());
  for (auto m : ms) *m = (N.transpose() * *m).eval();
  r = (N.transpose() * r).eval();
}
static double chi2q(int n) { return boost::math::quantile(boost::math::chi_squared(std::max(1, n)), 0.95); }
static double chi2(const Mat &H, const Mat &P, const Vec &r, double var) {
  Mat S = H * P * H.transpose();
  S.diagonal().array() += var;
  return r.dot(S.ldlt().solve(r));
}
/// joint Gaussian update: returns the error state mean, P becomes the posterior
static Vec gauss(Mat &P, const Mat &H, const Vec &r, double var) {
  Mat S = H * P * H.transpose();
  S.diagonal().array() += var;
  Mat K = S.ldlt().solve(H * P).transpose();
  Mat I = Mat::Identity(P.rows(), P.rows()) - K * H;
  Vec dx = K * r;
  P = (I * P * I.transpose() + var * K * K.transpose()).eval();
  P = 0.5 * (P + P.transpose()).eval();
  return dx;
}
struct W { // a world: state, truth and how to make measurements
  SP s;
  std::vector<bool> fish;
  std::vector<double> ts;
  std::map<TP, Mat> truth; // the values the measurements are generated from
};
static Pose true_pose(const W &w, const TP &v) { Mat x = w.truth.at(v); return {jpl2R(V4(x.block(0, 0, 4, 1))), x.block(4, 0, 3, 1)}; }
static void draw_truth(W &w, Rng &r, double k) {
  auto v = variables(w.s);
  Mat P = cov_of(w.s, v);
  Eigen::SelfAdjointEigenSolver<Mat> es(P);
  Vec g(P.rows());
  for (int i = 0; i < g.size(); i++) g(i) = r.n(1);
  Vec d = k * es.eigenvectors() * (es.eigenvalues().cwiseMax(0).cwiseSqrt().asDiagonal() * g);
  int a = 0;
  w.truth.clear();
  for (auto &x : v) { w.truth[x] = boxplus(x, x->value(), d.segment(a, x->size())); a += x->size(); }
  for (int i = 0; i < w.s->_options.num_cameras; i++) {
    TP e = w.s->_calib_IMUtoCAM.at(i), c = w.s->_cam_intrinsics.at(i);
    if (!w.truth.count(e)) w.truth[e] = e->value();
    if (!w.truth.count(c)) w.truth[c] = c->value();
  }
}
static bool project(const W &w, size_t cam, double t, const V3 &p, V2 &uv, V2 &un) {
  V3 q = global_to_cam(p, true_pose(w, w.s->_clones_IMU.at(t)), true_pose(w, w.s->_calib_IMUtoCAM.at(cam)));
  if (std::abs(q(2)) < 0.3 || q.head(2).norm() / std::abs(q(2)) > 1.2) return false;
  un = q.head(2) / q(2);
  uv = distort(w.truth.at(w.s->_cam_intrinsics.at(cam)), w.fish[cam], un);
  return true;
}
static void add(const FP &f, size_t cam, double t, const V2 &uv, const V2 &un) {
  f->timestamps[cam].push_back(t);
  f->uvs[cam].push_back(Eigen::VectorXf(uv.cast<float>()));
  f->uvs_norm[cam].push_back(Eigen::VectorXf(un.cast<float>()));
}
/// 0 good, 1 outlier, 2 behind, 3 far, 4 one measurement, 5 none in the window, 6 short, 7 good with measurements outside the window, 8 poor measurements
static FP make_feature(W &w, Rng &r, size_t id, int kind, double sigma, const V3 *at = nullptr) {
  auto f = std::make_shared<Feature>();
  f->featid = id;
  f->to_delete = false;
  int nc = w.s->_options.num_cameras, cam = r.i(0, nc - 1);
  double t = w.ts[r.i(0, w.ts.size() - 1)];
  Pose I = true_pose(w, w.s->_clones_IMU.at(t)), C = true_pose(w, w.s->_calib_IMUtoCAM.at(cam));
  double depth = kind == 2 ? -r.logu(1, 8) : kind == 3 ? r.logu(150, 800) : r.logu(1.2, 8);
  V3 p = at ? *at : cam_to_global(V3(r.u(-0.45, 0.45), r.u(-0.3, 0.3), 1) * depth, I, C);
  bool all = r.p(0.3);
  int want = kind == 4 ? 1 : kind == 6 ? r.i(2, 3) : 1000;
  double before = w.ts.front() - 0.5, after = w.ts.back() + 0.5;
  std::vector<std::pair<size_t, double>> slots;
  std::vector<size_t> cams;
  for (int i = 0; i < nc; i++) if (nc == 1 || all || i == cam || r.p(0.5)) cams.push_back(i);
  for (auto i : cams) for (double q : w.ts) if (r.p(0.8)) slots.push_back({i, q});
  for (int i = (int)slots.size() - 1; i > 0; i--) std::swap(slots[i], slots[r.i(0, i)]);
  if ((int)slots.size() > want) slots.resize(want);
  std::sort(slots.begin(), slots.end());
  auto junk = [&](double q) { for (auto i : cams) if (r.p(0.7)) add(f, i, q + r.u(-0.2, 0.2), V2(r.u(0, 700), r.u(0, 480)), V2(r.u(-1, 1), r.u(-1, 1))); };
  if (kind == 5 || kind == 7) junk(before);
  if (kind != 5)
    for (auto &sl : slots) {
      V2 uv, un;
      if (!project(w, sl.first, sl.second, p, uv, un)) continue;
      double sg = kind == 8 ? 4 * sigma : sigma;
      V2 e(r.n(sg), r.n(sg));
      if (kind == 1 && r.p(0.6)) e += 40 * sigma * V2(r.n(1), r.n(1));
      if (kind == 1 && r.p(0.3)) e += 400 * V2(r.n(1), r.n(1));
      double fl = w.s->_cam_intrinsics.at(sl.first)->value()(0);
      add(f, sl.first, sl.second, uv + e, un + e / fl);
    }
  if (kind == 5 || kind == 7) junk(after);
  return f;
}
static std::vector<Meas> in_window(const W &w, const Feature &f) {
  std::vector<Meas> o;
  for (auto &m : meas_of(f)) if (w.s->_clones_IMU.count(m.t)) o.push_back(m);
  return o;
}
/// triangulation with the library's own initializer (judged by S11) on a copy, from independently computed poses
static bool triangulate(const W &w, const Feature &f, const ov_core::FeatureInitializerOptions &fo, FP &out) {
  out = std::make_shared<Feature>();
  out->featid = f.featid;
  out->to_delete = false;
  // keep the (unordered) camera order of the original: which camera is the anchor on a tie depends on it
  *out = f;
  for (auto &c : out->timestamps) {
    std::vector<double> t;
    std::vector<Eigen::VectorXf> u, n;
    for (size_t k = 0; k < c.second.size(); k++)
      if (w.s->_clones_IMU.count(c.second[k])) { t.push_back(c.second[k]); u.push_back(f.uvs.at(c.first)[k]); n.push_back(f.uvs_norm.at(c.first)[k]); }
    c.second = t; out->uvs[c.first] = u; out->uvs_norm[c.first] = n;
  }
  auto o2 = fo;
  FeatureInitializer fi(o2);
  std::unordered_map<size_t, std::unordered_map<double, FeatureInitializer::ClonePose>> cl;
  for (int i = 0; i < w.s->_options.num_cameras; i++)
    for (double t : w.ts) {
      Pose I = pose_of(w.s->_clones_IMU.at(t), false), C = pose_of(w.s->_calib_IMUtoCAM.at(i), false);
      M3 R = C.R * I.R;
      V3 p = I.p - R.transpose() * C.p;
      cl[i].insert({t, FeatureInitializer::ClonePose(R, p)});
    }
  bool a = fo.triangulate_1d ? fi.single_triangulation_1d(out, cl) : fi.single_triangulation(out, cl);
  bool b = a && (!fo.refine_features || fi.single_gaussnewton(out, cl));
  return a && b;
}
struct Snap { std::vector<Mat> v, f; };
static Snap snap(const std::vector<TP> &v) { Snap s; for (auto &x : v) { s.v.push_back(x->value()); s.f.push_back(x->fej()); } return s; }
/// values moved by dx from the snapshot, covariance P, to a tolerance relative to the prior standard deviation
static void compare(const SP &s, const std::vector<TP> &vars, const Snap &old, const Vec &dx, const Mat &P, const Mat &P0, const std::string &key, const std::string &d, double tol) {
  int a = 0;
  Vec sd0 = P0.diagonal().cwiseMax(0).cwiseSqrt(), sd = P.diagonal().cwiseMax(1e-18).cwiseSqrt();
  double worst = 0;
  bool lin = true;
  for (size_t i = 0; i < vars.size(); i++) {
    Vec e = boxminus(vars[i], boxplus(vars[i], old.v[i], dx.segment(a, vars[i]->size())), vars[i]->value());
    for (int k = 0; k < vars[i]->size(); k++) worst = std::max(worst, std::abs(e(k)) / (sd0(a + k) + 1e-7));
    check(vars[i]->fej() == old.f[i], key + ":first-estimate", d);
    a += vars[i]->size();
  }
  maxv("worst " + key, worst);
  check(worst <= tol, key + ":values", d + fmt(" off by %.3g prior standard deviations", worst));
  Mat G = cov_of(s, vars);
  Mat D = (G - P).cwiseAbs();
  for (int i = 0; i < D.rows(); i++) for (int j = 0; j < D.cols(); j++) D(i, j) /= (sd0(i) * sd0(j) + 1e-14);
  maxv("worst " + key + " covariance", D.maxCoeff());
  check(D.maxCoeff() <= tol, key + ":covariance", d + fmt(" off by %.3g (relative to the prior)", D.maxCoeff()));
  check_cov(StateHelper::get_full_covariance(s), key + ":covariance-sound", d);
  check_tiling(s, variables(s), key, d);
  (void)lin; (void)sd;
}
static std::string ids(const std::vector<FP> &v) { std::string o; for (auto &f : v) o += fmt("%d ", (int)f->featid); return o; }

static W make_world(Rng &r, StateOptions &o) {
  W w;
  o = rand_options(r);
  o.max_clone_size = 30;
  o.do_calib_imu_intrinsics = r.p(0.15);
  o.max_aruco_features = r.p(0.5) ? 0 : r.i(1, 6);
  w.s = make_state(o, r);
  for (int i = 0; i < o.num_cameras; i++) w.fish.push_back(std::dynamic_pointer_cast<ov_core::CamEqui>(w.s->_cam_intrinsics_cameras.at(i)) != nullptr);
  w.ts = make_clones(w.s, r, r.i(4, 8), 0.3, 0.05);
  if (r.p(0.7)) split_fej(w.s, r, 0.002, 0.005);
  return w;
}

static void one(long c, Rng &r) {
  StateOptions o;
  W w = make_world(r, o);
  SP s = w.s;
  ov_core::FeatureInitializerOptions fo;
  fo.triangulate_1d = r.p(0.25);
  fo.refine_features = r.p(0.75);
  ov_msckf::UpdaterOptions um, us, ua;
  um.sigma_pix = r.logu(0.5, 3); us.sigma_pix = r.logu(0.5, 3); ua.sigma_pix = r.logu(0.5, 3);
  um.chi2_multipler = r.p(0.5) ? 1 : r.logu(0.7, 5); us.chi2_multipler = r.p(0.5) ? 1 : r.logu(0.7, 5); ua.chi2_multipler = r.p(0.5) ? 1 : r.logu(0.7, 5);
  const Rep reps[6] = {ALLREP[0], ALLREP[1], ALLREP[2], ALLREP[3], ALLREP[4], ALLREP[5]};
  s->_options.feat_rep_msckf = reps[r.i(0, 5)];
  s->_options.feat_rep_slam = reps[r.i(0, 5)];
  s->_options.feat_rep_aruco = reps[r.i(0, 5)];
  double covscale = r.logu(0.02, 0.4);
  rand_cov(s, variables(s), r, covscale);
  ov_msckf::UpdaterMSCKF updm(um, fo);
  ov_msckf::UpdaterSLAM upds(us, ua, fo);
  size_t tagmax = 4 * o.max_aruco_features, next = tagmax + 1;
  size_t nexttag = 0;
  std::string base = fmt("%s reps %s %s %s cov %.3f sig %.2f %.2f %.2f chi %.2f 1d%d ref%d clones %d tags %d", optname(o).c_str(), repname(s->_options.feat_rep_msckf), repname(s->_options.feat_rep_slam),
                         repname(s->_options.feat_rep_aruco), covscale, um.sigma_pix, us.sigma_pix, ua.sigma_pix, um.chi2_multipler, fo.triangulate_1d, fo.refine_features, (int)w.ts.size(), o.max_aruco_features);
  std::map<size_t, V3> lmpos; // true positions of landmarks
  auto is_tag = [&](size_t id) { return o.max_aruco_features > 0 && id <= tagmax; };
  for (int step = 0; step < 4; step++) {
    draw_truth(w, r, 1);
    int op = step == 0 ? r.i(0, 1) : r.i(0, 2);
    std::vector<TP> vars = variables(s);
    Mat P0 = cov_of(s, vars), P = P0;
    Snap old = snap(vars);
    int n = P.rows();
    Vec dx = Vec::Zero(n);
    if (op == 0) { // ---- MSCKF
      std::vector<FP> in, orig;
      int nf = r.i(1, 8);
      for (int k = 0; k < nf; k++) in.push_back(make_feature(w, r, next++, r.p(0.55) ? 0 : r.i(1, 8), um.sigma_pix));
      orig = in;
      std::vector<Feature> copies;
      for (auto &f : in) copies.push_back(*f);
      Rep rep = s->_options.feat_rep_msckf;
      if (rep == Rep::ANCHORED_INVERSE_DEPTH_SINGLE) rep = Rep::ANCHORED_MSCKF_INVERSE_DEPTH;
      std::vector<Mat> Hs;
      std::vector<Vec> rs;
      std::vector<int> dec; // 1 used, 0 not, -1 too close to call (follow the code)
      for (auto &f : copies) {
        auto ms = in_window(w, f);
        FP tri;
        int d = 0;
        Mat H;
        Vec e;
        if (ms.size() >= 2 && triangulate(w, f, fo, tri)) {
          Sys S = linearize(s, vars, w.fish, rep, tri->anchor_cam_id, tri->anchor_clone_timestamp, relrep(rep) ? cam_to_global(tri->p_FinA, pose_of(s->_clones_IMU.at(tri->anchor_clone_timestamp), false), pose_of(s->_calib_IMUtoCAM.at(tri->anchor_cam_id), false)) : tri->p_FinG,
                            tri->p_FinG, meas_of(*tri));
          H = S.Hx; e = S.r;
          eliminate(S.Hf, {&H}, e);
          double x = chi2(H, P0, e, um.sigma_pix * um.sigma_pix), thr = um.chi2_multipler * chi2q(e.size());
          d = std::abs(x / thr - 1) < 2e-3 ? -1 : x < thr ? 1 : 0;
          count(d == 1 ? "msckf:passed" : d == 0 ? "msckf:gated" : "msckf:tie");
        } else count(ms.size() < 2 ? "msckf:short" : "msckf:untriangulated");
        dec.push_back(d); Hs.push_back(H); rs.push_back(e);
      }
      updm.update(s, in);
      std::string ds = base + fmt(" step %d MSCKF of %d features", step, nf);
      std::vector<size_t> got;
      std::set<size_t> gotset;
      for (auto &f : in) { got.push_back(f->featid); gotset.insert(f->featid); }
      int rows = 0;
      std::vector<int> use;
      for (int k = 0; k < nf; k++) {
        bool g = gotset.count(orig[k]->featid);
        if (dec[k] >= 0) check(g == (dec[k] == 1), dec[k] ? "msckf:refused" : "msckf:accepted", ds + fmt(" feature %d returned '%s'", (int)orig[k]->featid, ids(in).c_str()));
        if (g && rs[k].size()) { use.push_back(k); rows += rs[k].size(); }
        check(orig[k]->to_delete, "msckf:not-consumed", ds + fmt(" feature %d", (int)orig[k]->featid));
      }
      check(got.size() == gotset.size(), "msckf:returned-twice", ds);
      if (rows) {
        Mat H(rows, n);
        Vec e(rows);
        int a = 0;
        for (int k : use) { H.middleRows(a, rs[k].size()) = Hs[k]; e.segment(a, rs[k].size()) = rs[k]; a += rs[k].size(); }
        dx = gauss(P, H, e, um.sigma_pix * um.sigma_pix);
        count("msckf:updates");
      } else count("msckf:empty-updates");
      compare(s, vars, old, dx, P, P0, rows ? "msckf" : "msckf:nothing", ds, rows ? 5e-3 : 1e-9);
      distinct(fmt("m:%s:%d:%d:%d:%d:%d", repname(rep), o.do_fej, o.do_calib_camera_pose, o.do_calib_camera_intrinsics, (int)use.size(), nf));
    } else if (op == 1) { // ---- new landmarks, one after the other
      int nf = r.i(1, 3);
      for (int q = 0; q < nf; q++) {
        if (q) { vars = variables(s); P0 = P = cov_of(s, vars); old = snap(vars); n = P.rows(); dx = Vec::Zero(n); }
        bool tag = o.max_aruco_features > 0 && r.p(0.4) && nexttag < tagmax;
        size_t id = tag ? nexttag++ : next++;
        if (tag && r.p(0.5)) { id = std::min(tagmax - 1, nexttag + (size_t)r.i(0, 6)); nexttag = id + 1; }
        const auto &uo = tag ? ua : us;
        Rep frep = tag ? s->_options.feat_rep_aruco : s->_options.feat_rep_slam, rep = frep;
        bool single = frep == Rep::ANCHORED_INVERSE_DEPTH_SINGLE;
        if (single) rep = Rep::ANCHORED_MSCKF_INVERSE_DEPTH;
        int kind = r.p(0.6) ? 0 : r.i(1, 8);
        FP f = make_feature(w, r, id, kind, uo.sigma_pix);
        Feature copy = *f;
        auto ms = in_window(w, copy);
        FP tri;
        int dec = 0;
        Vec fm;
        Mat A, Cf;
        Vec post;
        Mat PP = P0;
        double var = uo.sigma_pix * uo.sigma_pix;
        if (ms.size() >= 2 && triangulate(w, copy, fo, tri)) {
          V3 pg = relrep(rep) ? cam_to_global(tri->p_FinA, pose_of(s->_clones_IMU.at(tri->anchor_clone_timestamp), false), pose_of(s->_calib_IMUtoCAM.at(tri->anchor_cam_id), false)) : tri->p_FinG;
          Sys S = linearize(s, vars, w.fish, rep, tri->anchor_cam_id, tri->anchor_clone_timestamp, pg, pg, meas_of(*tri));
          Mat H = S.Hx;
          Vec e = S.r;
          eliminate(S.Hf, {&H}, e);
          if (e.size() == 0) dec = 1;
          else {
            double x = chi2(H, P0, e, var), lo = uo.chi2_multipler * chi2q(e.size()), hi = uo.chi2_multipler * chi2q(S.r.size());
            dec = x < lo * (1 - 2e-3) ? 1 : x > hi * (1 + 2e-3) ? 0 : -1; // between: the degrees of freedom of the gate are not specified
          }
          post = e.size() ? gauss(PP, H, e, var) : Vec(Vec::Zero(n));
          Mat HH = (S.Hf.transpose() * S.Hf).inverse();
          A = -HH * S.Hf.transpose() * S.Hx;
          fm = HH * S.Hf.transpose() * (S.r - S.Hx * post);
          Cf = A * PP * A.transpose() + var * HH;
          count(dec == 1 ? "delayed:passed" : dec == 0 ? "delayed:gated" : "delayed:tie");
        } else count(ms.size() < 2 ? "delayed:short" : "delayed:untriangulated");
        std::vector<FP> in{f};
        std::string ds = base + fmt(" step %d new landmark %d kind %d tag %d measurements %d", step, (int)id, kind, tag, (int)ms.size());
        upds.delayed_init(s, in);
        bool got = s->_features_SLAM.count(id);
        check(f->to_delete, "delayed:not-consumed", ds);
        check(got == !in.empty(), "delayed:returned", ds);
        if (dec >= 0) check(got == (dec == 1), dec ? "delayed:refused" : "delayed:accepted", ds);
        if (!got || !tri || fm.size() == 0) { compare(s, vars, old, Vec::Zero(n), P0, P0, "delayed:nothing", ds, 1e-9); continue; }
        compare(s, vars, old, post, PP, P0, "delayed", ds, 5e-3);
        auto lm = s->_features_SLAM.at(id);
        check(lm->_featid == id && lm->size() == (single ? 1 : 3) && lm->_feat_representation == frep, "delayed:landmark", ds);
        if (relrep(rep)) check(lm->_anchor_cam_id == tri->anchor_cam_id && lm->_anchor_clone_timestamp == tri->anchor_clone_timestamp, "delayed:anchor", ds);
        // value: the triangulated point moved by fm, in the parameters of the representation
        Vec l0 = rep_from_xyz(rep, relrep(rep) ? tri->p_FinA : tri->p_FinG);
        Vec want = l0 + fm, have = lm->value();
        Mat Cl = Cf;
        Mat X = A * PP;
        if (single) { want = Vec(want.tail(1)); Cl = Cf.bottomRightCorner(1, 1).eval(); X = X.bottomRows(1).eval(); l0 = Vec(l0.tail(1)); }
        Vec sl = Cl.diagonal().cwiseSqrt(), sx = P0.diagonal().cwiseSqrt();
        Vec e = have - want;
        if (rep == Rep::GLOBAL_FULL_INVERSE_DEPTH || rep == Rep::ANCHORED_FULL_INVERSE_DEPTH) e(0) = std::remainder(e(0), 2 * M_PI);
        near(Vec(e.cwiseQuotient(sl)), Vec(Vec::Zero(e.size())), 0.02, "delayed:position", ds);
        std::vector<TP> lv{TP(lm)};
        Mat gl = cov_of(s, lv);
        Mat dd = (gl - Cl).cwiseAbs().cwiseQuotient(sl * sl.transpose());
        check(dd.maxCoeff() < 5e-3, "delayed:uncertainty", ds + fmt(" off by %.3g", dd.maxCoeff()));
        std::vector<TP> all = lv;
        all.insert(all.end(), vars.begin(), vars.end());
        Mat xc = cov_of(s, all).block(0, lm->size(), lm->size(), n);
        Mat xe = (xc - X).cwiseAbs().cwiseQuotient(sl * (sx.array() + 1e-9).matrix().transpose());
        check(xe.maxCoeff() < 5e-3, "delayed:correlation", ds + fmt(" off by %.3g", xe.maxCoeff()));
        V3 fejp = lm->get_xyz(true), trip = relrep(rep) ? tri->p_FinA : tri->p_FinG;
        near(fejp, trip, 1e-6 * trip.norm(), "delayed:first-estimate", ds);
        count("delayed:added");
        count(std::string("delayed:") + repname(frep));
        if (tag) count("delayed:tags");
        lmpos[id] = V3::Zero();
        distinct(fmt("d:%s:%d:%d:%d:%d:%d", repname(frep), o.do_fej, o.do_calib_camera_pose, o.do_calib_camera_intrinsics, tag, (int)ms.size()));
      }
    } else { // ---- landmarks of the map
      std::vector<FP> in, orig;
      std::vector<Feature> copies;
      // where the landmarks are, drawn from the belief
      for (auto &q : s->_features_SLAM) {
        if (r.p(0.2)) continue;
        auto lm = q.second;
        bool tag = is_tag(q.first);
        Rep rep = lm->_feat_representation;
        V3 x = rep_to_xyz(rep, w.truth.at(lm), rep == Rep::ANCHORED_INVERSE_DEPTH_SINGLE ? V3(lm->get_xyz(false) / lm->get_xyz(false)(2)) : V3());
        V3 p = relrep(rep) ? cam_to_global(x, true_pose(w, s->_clones_IMU.at(lm->_anchor_clone_timestamp)), true_pose(w, s->_calib_IMUtoCAM.at(lm->_anchor_cam_id))) : x;
        int kind = r.p(0.6) ? 0 : r.p(0.5) ? 1 : r.i(4, 8);
        in.push_back(make_feature(w, r, q.first, kind, (tag ? ua : us).sigma_pix, &p));
        // only the newest measurements usually reach the update
        copies.push_back(*in.back());
      }
      orig = in;
      if (in.empty()) continue;
      int nf = in.size();
      std::vector<Mat> Hs;
      std::vector<Vec> rs;
      std::vector<int> dec, fails;
      for (auto &f : copies) {
        auto lm = s->_features_SLAM.at(f.featid);
        bool tag = is_tag(f.featid);
        const auto &uo = tag ? ua : us;
        Rep frep = lm->_feat_representation, rep = frep;
        bool single = frep == Rep::ANCHORED_INVERSE_DEPTH_SINGLE;
        if (single) rep = Rep::ANCHORED_MSCKF_INVERSE_DEPTH;
        auto ms = in_window(w, f);
        int d = 0;
        Mat H;
        Vec e;
        fails.push_back(lm->update_fail_count);
        if (ms.size() >= (single ? 2u : 1u)) {
          V3 x = lm->get_xyz(false);
          bool rel = relrep(rep);
          V3 pg = rel ? cam_to_global(x, pose_of(s->_clones_IMU.at(lm->_anchor_clone_timestamp), false), pose_of(s->_calib_IMUtoCAM.at(lm->_anchor_cam_id), false)) : x;
          V3 pl = rel ? pg : o.do_fej ? lm->get_xyz(true) : x;
          Sys S = linearize(s, vars, w.fish, rep, lm->_anchor_cam_id, lm->_anchor_clone_timestamp, pg, pl, ms);
          int at = 0;
          for (auto &v : vars) { if (v == TP(lm)) break; at += v->size(); }
          H = S.Hx; e = S.r;
          if (single) {
            Mat Hr = S.Hf.rightCols(1);
            H.col(at) += Hr;
            Mat Hb = S.Hf.leftCols(2);
            eliminate(Hb, {&H}, e);
          } else H.middleCols(at, 3) += S.Hf;
          double v = uo.sigma_pix * uo.sigma_pix, q = chi2(H, P0, e, v), thr = uo.chi2_multipler * chi2q(e.size());
          d = std::abs(q / thr - 1) < 2e-3 ? -1 : q < thr ? 1 : 0;
          count(d == 1 ? "slam:passed" : d == 0 ? "slam:gated" : "slam:tie");
          H /= uo.sigma_pix; e /= uo.sigma_pix; // one noise level for the joint update
        } else { count("slam:short"); d = ms.empty() ? -2 : -3; }
        dec.push_back(d); Hs.push_back(H); rs.push_back(e);
      }
      upds.update(s, in);
      std::string ds = base + fmt(" step %d landmarks %d", step, nf);
      std::set<size_t> gotset;
      for (auto &f : in) gotset.insert(f->featid);
      check(gotset.size() == in.size(), "slam:returned-twice", ds);
      std::vector<int> use;
      int rows = 0;
      for (int k = 0; k < nf; k++) {
        size_t id = orig[k]->featid;
        bool g = gotset.count(id), tag = is_tag(id);
        auto lm = s->_features_SLAM.at(id);
        std::string dk = ds + fmt(" landmark %d (%s) tag %d", (int)id, repname(lm->_feat_representation), tag);
        if (dec[k] <= -2) { check(!g, "slam:accepted", dk); if (dec[k] == -2) check(orig[k]->to_delete, "slam:not-consumed", dk); check(lm->update_fail_count == fails[k], "slam:fail-count", dk); continue; }
        if (dec[k] >= 0) check(g == (dec[k] == 1), dec[k] ? "slam:refused" : "slam:accepted", dk);
        check(orig[k]->to_delete, "slam:not-consumed", dk);
        check(lm->update_fail_count == fails[k] + (!g && !tag ? 1 : 0), "slam:fail-count", dk);
        if (g) { use.push_back(k); rows += rs[k].size(); if (tag) count("slam:tags"); count(std::string("slam:") + repname(lm->_feat_representation)); }
      }
      if (rows) {
        Mat H(rows, n);
        Vec e(rows);
        int a = 0;
        for (int k : use) { H.middleRows(a, rs[k].size()) = Hs[k]; e.segment(a, rs[k].size()) = rs[k]; a += rs[k].size(); }
        dx = gauss(P, H, e, 1);
        count("slam:updates");
      }
      compare(s, vars, old, dx, P, P0, rows ? "slam" : "slam:nothing", ds, rows ? 5e-3 : 1e-9);
      Mat G = cov_of(s, vars);
      for (int i = 0; i < n; i++) check(G(i, i) <= P0(i, i) * (1 + 1e-6) + 1e-15, "slam:uncertainty-grew", ds);
      distinct(fmt("s:%d:%d:%d:%d:%d", o.do_fej, o.do_calib_camera_pose, o.do_calib_camera_intrinsics, (int)use.size(), nf));
    }
  }
  if (c < 3) sample(base);
}
int main(int argc, char **argv) {
  init(argc, argv);
  ov_core::Printer::setPrintLevel("SILENT");
  run_cases(ctx().a.thorough() ? 16000 : 800, one);
  return finish();
}
