// S06: residual and Jacobians of a feature track against numerical derivatives of an independent projection.
#include "vj.h"
#include "update/UpdaterHelper.h"
using namespace vj;
using namespace ov_msckf;
typedef UpdaterHelper::UpdaterHelperFeature UF;

int main(int argc, char **argv) {
  vh::init(argc, argv);
  ov_core::Printer::setPrintLevel("SILENT");
  run_cases(ctx().a.thorough() ? 40000 : 2400, [&](long c, Rng &r) {
    StateOptions o = rand_options(r);
    o.max_clone_size = 30;
    SP s = make_state(o, r);
    std::vector<bool> fish;
    for (int i = 0; i < o.num_cameras; i++) fish.push_back(std::dynamic_pointer_cast<ov_core::CamEqui>(s->_cam_intrinsics_cameras.at(i)) != nullptr);
    auto ts = make_clones(s, r, r.i(2, 9));
    Rep rep = ALLREP[r.i(0, 5)];
    // calibration whose first estimate is something else: only the current value may be used
    if (r.p(0.5)) for (int i = 0; i < o.num_cameras; i++) { Mat v = s->_calib_IMUtoCAM.at(i)->value(); v.block(4, 0, 3, 1) += r.v3(0.05); s->_calib_IMUtoCAM.at(i)->set_fej(v); }
    bool differ = r.p(0.7);
    if (differ) split_fej(s, r);
    // a point in front of the anchor camera
    int acam = r.i(0, o.num_cameras - 1);
    double at = ts[r.i(0, ts.size() - 1)];
    V3 b(r.u(-0.5, 0.5), r.u(-0.35, 0.35), 1);
    if (r.p(0.1)) b = V3(r.n(1e-3), r.n(1e-3), 1);
    double depth = r.logu(0.8, 20);
    UF f;
    f.featid = c;
    f.feat_representation = rep;
    V3 pA = b * depth;
    f.anchor_cam_id = acam;
    f.anchor_clone_timestamp = at;
    f.p_FinA = pA;
    f.p_FinA_fej = pA + r.v3(differ ? 0.02 * depth : 0);
    Pose IA = pose_of(s->_clones_IMU.at(at), false), CA = pose_of(s->_calib_IMUtoCAM.at(acam), false);
    f.p_FinG = cam_to_global(pA, IA, CA);
    f.p_FinG_fej = f.p_FinG + r.v3(differ ? 0.02 * depth : 0);
    if (!relrep(rep)) { f.anchor_cam_id = -1; f.anchor_clone_timestamp = -1; }
    bool fej = o.do_fej, rel = relrep(rep);
    V3 pG = f.p_FinG, pGlin = rel ? pG : (fej ? f.p_FinG_fej : f.p_FinG);
    // measurements of a random subset of (camera, clone)
    struct M { size_t cam; double t; V2 uv; };
    std::vector<M> ms;
    for (int i = 0; i < o.num_cameras; i++) {
      if (o.num_cameras > 1 && r.p(0.25)) continue;
      for (double t : ts) {
        if (r.p(0.3)) continue;
        V3 q = global_to_cam(pG, pose_of(s->_clones_IMU.at(t), false), pose_of(s->_calib_IMUtoCAM.at(i), false));
        if (q(2) < 0.3 || q.head(2).norm() / q(2) > 1.2) continue;
        V2 uv = distort(s->_cam_intrinsics.at(i)->value(), fish[i], q.head(2) / q(2)) + V2(r.n(1), r.n(1));
        ms.push_back({(size_t)i, t, uv});
        f.uvs[i].push_back(uv.cast<float>());
        f.uvs_norm[i].push_back(Eigen::VectorXf((q.head(2) / q(2)).cast<float>()));
        f.timestamps[i].push_back(t);
      }
    }
    if (ms.empty()) return;
    Mat Hf, Hx;
    Vec res;
    std::vector<TP> order;
    Mat P0 = StateHelper::get_full_covariance(s);
    UpdaterHelper::get_feature_jacobian_full(s, f, Hf, Hx, res, order);
    std::string d = fmt("%s %s meas %d clones %d differ %d ", repname(rep), optname(o).c_str(), (int)ms.size(), (int)ts.size(), differ);
    count(std::string("rep:") + repname(rep));
    for (int i = 0; i < o.num_cameras; i++) count(fish[i] ? "fisheye" : "radtan");
    distinct(fmt("%s fej%d ext%d intr%d cams%d ms%d anchor%d", repname(rep), fej, o.do_calib_camera_pose, o.do_calib_camera_intrinsics, o.num_cameras, (int)ms.size(), acam));
    if (c < 24) sample(d);
    int dim = rep == Rep::ANCHORED_INVERSE_DEPTH_SINGLE ? 1 : 3, n = total(order);
    std::set<TP> uniq(order.begin(), order.end());
    check(uniq.size() == order.size(), "order:unique", d);
    if (!check(res.rows() == 2 * (int)ms.size() && Hf.rows() == res.rows() && Hx.rows() == res.rows() && Hf.cols() == dim && Hx.cols() == n, "size", d + fmt("res %d Hf %dx%d Hx %dx%d vars %d", (int)res.rows(), (int)Hf.rows(), (int)Hf.cols(), (int)Hx.rows(), (int)Hx.cols(), n))) return;
    std::map<TP, int> at_col;
    { int a = 0; for (auto &v : order) { at_col[v] = a; a += v->size(); } }
    for (auto &v : order) check(v->id() >= 0 && v->id() + v->size() <= s->max_covariance_size(), "order:in-state", d);
    // expected rows, one pair per measurement, columns in the returned order
    Pose IAl = rel ? pose_of(s->_clones_IMU.at(at), fej) : Pose();
    V3 lin = rel ? global_to_cam(pGlin, IAl, CA) : pGlin;
    Vec lam = rep_from_xyz(rep, lin);
    V3 bear = lin / lin(2);
    std::vector<char> used(ms.size(), 0);
    for (size_t k = 0; k < ms.size(); k++) {
      auto &m = ms[k];
      TP clone = s->_clones_IMU.at(m.t), ext = s->_calib_IMUtoCAM.at(m.cam), intr = s->_cam_intrinsics.at(m.cam), aclone = rel ? TP(s->_clones_IMU.at(at)) : nullptr, aext = rel ? TP(s->_calib_IMUtoCAM.at(acam)) : nullptr;
      Pose Ii = pose_of(s->_clones_IMU.at(m.t), fej), Ci = pose_of(s->_calib_IMUtoCAM.at(m.cam), false);
      Vec cam = s->_cam_intrinsics.at(m.cam)->value();
      bool fi = fish[m.cam];
      V3 qc = global_to_cam(pG, pose_of(s->_clones_IMU.at(m.t), false), Ci);
      V2 un = qc.head(2) / qc(2);
      V2 er = m.uv.cast<float>().cast<double>() - distort(cam, fi, un);
      // derivative of the lens at the current ray, of the ray at the linearization point
      Mat Dn = numjac4([&](const Vec &e) -> Vec { return distort(cam, fi, un + V2(e)); }, 2, 1e-4);
      auto ray = [&](const Vec &dl, const Vec &dci, const Vec &dext, const Vec &dca, const Vec &daext) -> Vec {
        Pose I2 = perturb(Ii, dci), C2 = perturb(Ci, dext);
        V3 p;
        if (rel) p = cam_to_global(rep_to_xyz(rep, lam + dl, bear), perturb(IAl, dca), perturb(CA, daext));
        else p = rep_to_xyz(rep, lam + dl, bear);
        V3 q = global_to_cam(p, I2, C2);
        return V2(q.head(2) / q(2));
      };
      Vec z6 = Vec::Zero(6), zl = Vec::Zero(dim);
      double hl = 1e-4 * std::min(1.0, lam.cwiseAbs().maxCoeff());
      if (rep == Rep::ANCHORED_INVERSE_DEPTH_SINGLE) hl = 1e-3 * lam(0);
      Mat Ef = Dn * numjac4([&](const Vec &e) { Vec q = e; return ray(q, z6, z6, z6, z6); }, dim, std::min(hl, dim == 3 && rep != Rep::GLOBAL_3D && rep != Rep::ANCHORED_3D ? 1e-3 * lam(2) : hl));
      Mat Ex = Mat::Zero(2, n);
      std::string missing;
      auto put = [&](const TP &v, const Mat &J, const char *nm) {
        auto it = at_col.find(v);
        if (it == at_col.end()) { missing += nm; return; }
        Ex.block(0, it->second, 2, J.cols()) += J;
      };
      auto n6 = [&](int which) { return Mat(Dn * numjac4([&](const Vec &e) { return ray(zl, which == 0 ? e : z6, which == 1 ? e : z6, which == 2 ? e : z6, which == 3 ? e : z6); }, 6, 1e-4)); };
      put(clone, n6(0), "clone ");
      if (o.do_calib_camera_pose) put(ext, n6(1), "extrinsic ");
      if (rel) { put(aclone, n6(2), "anchor "); if (o.do_calib_camera_pose) put(aext, n6(3), "anchor-extrinsic "); }
      if (o.do_calib_camera_intrinsics) put(intr, numjac4([&](const Vec &e) -> Vec { return distort(cam + e, fi, un); }, 8, 1e-4), "intrinsic ");
      if (!check(missing.empty(), "order:missing", d + missing)) return;
      // the pair of rows this measurement owns: rows come in no promised order
      int best = -1;
      double bd = 1e300;
      for (size_t j = 0; j < ms.size(); j++) {
        if (used[j]) continue;
        double e = (res.segment(2 * j, 2) - er).cwiseAbs().maxCoeff();
        if (e < bd) { bd = e; best = j; }
      }
      used[best] = 1;
      near(Vec(res.segment(2 * best, 2)), er, 3e-3, "residual:" + std::string(fi ? "fish" : "radtan"), d);
      double sf = std::max(1.0, Ef.cwiseAbs().maxCoeff());
      near(Mat(Hf.middleRows(2 * best, 2)), Ef, 2e-5 * sf, std::string("Hf:") + repname(rep) + (fej ? ":fej" : ""), d);
      for (auto &v : order) {
        Mat A = Hx.block(2 * best, at_col[v], 2, v->size()), E = Ex.middleCols(at_col[v], v->size());
        std::string nm = v == clone ? "clone" : v == aclone ? "anchor" : v == intr ? "intrinsic" : v == ext ? "extrinsic" : v == aext ? "anchor-extrinsic" : "other";
        near(A, E, 2e-5 * std::max(1.0, E.cwiseAbs().maxCoeff()), "Hx:" + nm + ":" + repname(rep) + (fej ? ":fej" : ""), d);
      }
    }
    near(StateHelper::get_full_covariance(s), P0, 0, "state-untouched", d);
  });
  return finish();
}
