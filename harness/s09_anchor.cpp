// S09: representation round trips and anchor changes of map landmarks.
#include "vj.h"
#include "feat/FeatureInitializerOptions.h"
#include "update/UpdaterOptions.h"
#include "update/UpdaterSLAM.h"
using namespace vj;
using namespace ov_msckf;
using ov_type::Landmark;

static void roundtrip(Rng &r) {
  for (Rep rep : ALLREP) {
    Landmark l(rep == Rep::ANCHORED_INVERSE_DEPTH_SINGLE ? 1 : 3);
    l._feat_representation = rep;
    V3 a = V3(r.u(-1, 1), r.u(-1, 1), 1) * r.logu(0.2, 100), b = V3(r.u(-1, 1), r.u(-1, 1), 1) * r.logu(0.2, 100);
    if (rep == Rep::GLOBAL_3D || rep == Rep::ANCHORED_3D || rep == Rep::GLOBAL_FULL_INVERSE_DEPTH || rep == Rep::ANCHORED_FULL_INVERSE_DEPTH) { a = r.v3(10); b = r.v3(10); }
    if (r.p(0.5)) { l.set_from_xyz(a, false); l.set_from_xyz(b, true); }
    else { l.set_from_xyz(b, true); l.set_from_xyz(a, false); }
    near(V3(l.get_xyz(false)), a, 1e-9 * a.norm() * std::max(1.0, 1.0), std::string("roundtrip:") + repname(rep), str(a));
    near(V3(l.get_xyz(true)), b, 1e-9 * b.norm(), std::string("roundtrip-fej:") + repname(rep), str(b));
    near(Vec(l.value()), rep_from_xyz(rep, a), 1e-8 * std::max(1.0, a.norm()), std::string("params:") + repname(rep), str(a));
    // an update moves the parameters of the current estimate only
    Vec d = 1e-3 * l.value().cwiseAbs().cwiseProduct(r.vec(l.size()));
    l.update(d);
    near(V3(l.get_xyz(false)), rep_to_xyz(rep, rep_from_xyz(rep, a) + d, a / a(2)), 1e-8 * a.norm(), std::string("update:") + repname(rep), str(a));
    near(V3(l.get_xyz(true)), b, 1e-9 * b.norm(), std::string("update-fej:") + repname(rep), str(b));
    count("roundtrips");
  }
}
struct Snap { Rep rep; V3 pG, pGfej; Mat J; std::vector<TP> on; bool rel; int cam; double at; V3 dir; };
/// global position, and its derivative about every state variable, at the linearization point the filter uses
static Snap snap(const SP &s, const std::shared_ptr<Landmark> &l, const std::vector<TP> &vars, int n, const std::map<TP, int> &col) {
  Snap o;
  o.rep = l->_feat_representation;
  o.rel = relrep(o.rep);
  o.cam = l->_anchor_cam_id;
  o.at = l->_anchor_clone_timestamp;
  bool fej = s->_options.do_fej;
  o.J = Mat::Zero(3, n);
  V3 v = rep_to_xyz(o.rep, l->value(), l->uv_norm_zero), f = rep_to_xyz(o.rep, l->fej(), l->uv_norm_zero_fej);
  if (!o.rel) { o.pG = v; o.pGfej = f; return o; }
  auto cl = s->_clones_IMU.at(o.at);
  auto ca = s->_calib_IMUtoCAM.at(o.cam);
  Pose I = pose_of(cl, false), If = pose_of(cl, true), C = pose_of(ca, false), L = fej ? If : I;
  o.pG = cam_to_global(v, I, C);
  o.pGfej = cam_to_global(f, If, C);
  V3 lin = global_to_cam(o.pG, L, C), bear = lin / lin(2);
  Vec lam = rep_from_xyz(o.rep, lin);
  Vec z = Vec::Zero(6);
  auto G = [&](const Vec &dl, const Vec &dc, const Vec &de) -> Vec { return cam_to_global(rep_to_xyz(o.rep, lam + dl, bear), perturb(L, dc), perturb(C, de)); };
  int m = l->size();
  Mat D = numjac4([&](const Vec &e) { return G(e, z, z); }, m, 1e-3 * std::abs(m == 1 ? lam(0) : lam(2)));
  o.J.block(0, col.at(l), 3, m) = D;
  o.J.block(0, col.at(cl), 3, 6) += numjac4([&](const Vec &e) { return G(Vec::Zero(m), e, z); }, 6, 1e-3);
  if (s->_options.do_calib_camera_pose) o.J.block(0, col.at(ca), 3, 6) += numjac4([&](const Vec &e) { return G(Vec::Zero(m), z, e); }, 6, 1e-3);
  if (m == 1) o.dir = D.col(0).normalized();
  return o;
}
int main(int argc, char **argv) {
  vh::init(argc, argv);
  ov_core::Printer::setPrintLevel("SILENT");
  run_cases(ctx().a.thorough() ? 20000 : 800, [&](long c, Rng &r) {
    roundtrip(r);
    StateOptions o = rand_options(r);
    o.feat_rep_slam = ALLREP[r.i(0, 5)];
    int nc = r.i(3, 8);
    bool full = r.p(0.85);
    o.max_clone_size = full ? nc - 1 : nc;
    SP s = make_state(o, r);
    auto ts = make_clones(s, r, nc, 0.15, 0.04);
    if (r.p(0.7)) split_fej(s, r);
    // landmarks of all representations, anchored anywhere in the window
    int nl = r.i(1, 6);
    for (int k = 0; k < nl; k++) {
      Rep rep = ALLREP[r.i(0, 5)];
      auto l = std::make_shared<Landmark>(rep == Rep::ANCHORED_INVERSE_DEPTH_SINGLE ? 1 : 3);
      l->_featid = 100 + k;
      l->_feat_representation = rep;
      int cam = r.i(0, o.num_cameras - 1);
      double at = r.p(0.5) ? ts[0] : ts[r.i(0, nc - 1)];
      V3 pA = V3(r.u(-0.4, 0.4), r.u(-0.4, 0.4), 1) * r.logu(2, 15);
      l->_unique_camera_id = cam;
      Pose I = pose_of(s->_clones_IMU.at(at), false), If = pose_of(s->_clones_IMU.at(at), true), C = pose_of(s->_calib_IMUtoCAM.at(cam), false);
      V3 pG = cam_to_global(pA, I, C), pGf = pG + r.v3(0.03);
      if (relrep(rep)) {
        l->_anchor_cam_id = cam;
        l->_anchor_clone_timestamp = at;
        l->set_from_xyz(pA, false);
        l->set_from_xyz(global_to_cam(pGf, If, C), true);
      } else {
        l->set_from_xyz(pG, false);
        l->set_from_xyz(pGf, true);
      }
      int m = l->size();
      Mat v0 = l->value(), f0 = l->fej();
      Mat HL = Mat::Identity(m, m), HR = Mat::Zero(m, 6), R = Mat::Identity(m, m);
      Vec z = Vec::Zero(m);
      StateHelper::initialize_invertible(s, l, {s->_clones_IMU.at(ts[0])}, HR, HL, R, z);
      l->set_value(v0);
      l->set_fej(f0);
      s->_features_SLAM[l->_featid] = l;
    }
    auto vars = variables(s);
    rand_cov(s, vars, r, 0.3);
    // landmark parameters: uncertainty in proportion to their size
    std::map<TP, int> col;
    int n = 0;
    for (auto &v : vars) { col[v] = n; n += v->size(); }
    Mat P0 = cov_of(s, vars);
    {
      Vec sc = Vec::Ones(n);
      for (auto &f : s->_features_SLAM) if (f.second->_feat_representation != Rep::GLOBAL_3D && f.second->_feat_representation != Rep::ANCHORED_3D) {
        sc(col[f.second] + f.second->size() - 1) = 0.02 * std::abs(f.second->value()(f.second->size() - 1));
      }
      P0 = sc.asDiagonal() * P0 * sc.asDiagonal();
      StateHelper::set_initial_covariance(s, P0, vars);
      P0 = cov_of(s, vars);
    }
    std::map<size_t, Snap> before;
    std::vector<Mat> val, fej;
    for (auto &v : vars) { val.push_back(v->value()); fej.push_back(v->fej()); }
    for (auto &f : s->_features_SLAM) before[f.first] = snap(s, f.second, vars, n, col);
    UpdaterOptions uo, ua;
    ov_core::FeatureInitializerOptions fo;
    UpdaterSLAM up(uo, ua, fo);
    up.change_anchors(s);
    std::string d = optname(o) + fmt(" clones %d full %d ", nc, full);
    check_tiling(s, vars, "anchor", d);
    Mat P1 = cov_of(s, vars);
    std::set<TP> moved;
    for (auto &f : s->_features_SLAM) {
      auto &l = f.second;
      Snap &b = before[f.first];
      std::string dd = d + fmt("landmark %s anchor %.3f cam %d", repname(b.rep), b.at, b.cam);
      bool must = b.rel && full && b.at == ts[0];
      check(l->_feat_representation == b.rep, "representation-kept", dd);
      if (!must) {
        check(l->_anchor_clone_timestamp == b.at && l->_anchor_cam_id == b.cam, "not-due:anchor", dd);
        count("kept");
        continue;
      }
      moved.insert(l);
      count(std::string("moved:") + repname(b.rep));
      distinct(fmt("%s fej%d ext%d cams%d clones%d", repname(b.rep), o.do_fej, o.do_calib_camera_pose, o.num_cameras, nc));
      if (!check(s->_clones_IMU.count(l->_anchor_clone_timestamp) == 1 && l->_anchor_clone_timestamp != ts[0], "moved:anchor-stays", dd)) continue;
      if (!check(s->_calib_IMUtoCAM.count(l->_anchor_cam_id) == 1, "moved:anchor-camera", dd)) continue;
      Snap a = snap(s, l, vars, n, col);
      double sc = std::max(1.0, b.pG.norm());
      near(a.pG, b.pG, 1e-8 * sc, std::string("moved:position:") + repname(b.rep), dd);
      near(a.pGfej, b.pGfej, 1e-8 * sc, std::string("moved:position-fej:") + repname(b.rep), dd);
      near(V3(l->get_xyz(false)), rep_to_xyz(b.rep, l->value(), l->uv_norm_zero), 1e-8 * sc, "moved:readback", dd);
      // uncertainty of the global position and its correlation with everything else that is not a landmark
      Mat X0 = b.J * P0, X1 = a.J * P1, C0 = b.J * P0 * b.J.transpose(), C1 = a.J * P1 * a.J.transpose();
      if (b.rep == Rep::ANCHORED_INVERSE_DEPTH_SINGLE) { // only the component along the ray can be kept by a single parameter
        X0 = a.dir.transpose() * X0; X1 = a.dir.transpose() * X1;
        C0 = a.dir.transpose() * C0 * a.dir; C1 = a.dir.transpose() * C1 * a.dir;
      }
      near(C1, C0, 1e-5 * C0.cwiseAbs().maxCoeff(), std::string("moved:uncertainty:") + repname(b.rep) + (o.do_fej ? ":fej" : ""), dd);
      for (auto &v : vars) {
        if (std::dynamic_pointer_cast<Landmark>(v)) continue;
        Mat x0 = X0.middleCols(col[v], v->size()), x1 = X1.middleCols(col[v], v->size());
        near(x1, x0, 1e-5 * std::max(x0.cwiseAbs().maxCoeff(), 1e-6 * X0.cwiseAbs().maxCoeff()) + 1e-12, std::string("moved:correlation:") + repname(b.rep), dd);
      }
    }
    // everything else is left alone
    for (size_t i = 0; i < vars.size(); i++) {
      if (moved.count(vars[i])) continue;
      near(vars[i]->value(), val[i], 0, "others:value", d);
      near(vars[i]->fej(), fej[i], 0, "others:fej", d);
      for (size_t j = 0; j < vars.size(); j++) {
        if (moved.count(vars[j])) continue;
        near(Mat(P1.block(col[vars[i]], col[vars[j]], vars[i]->size(), vars[j]->size())), P0.block(col[vars[i]], col[vars[j]], vars[i]->size(), vars[j]->size()), 0, "others:covariance", d);
      }
    }
    check_cov(P1, "anchor:cov", d, 1e-5);
    // and the oldest clone can now be removed with every anchor still in the window
    StateHelper::marginalize_old_clone(s);
    for (auto &f : s->_features_SLAM)
      if (relrep(f.second->_feat_representation)) check(s->_clones_IMU.count(f.second->_anchor_clone_timestamp) == 1, "anchor-in-window", d);
    if (c < 16) sample(d + fmt("%d landmarks, %d moved", (int)s->_features_SLAM.size(), (int)moved.size()));
  });
  return finish();
}
