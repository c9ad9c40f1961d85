// S01: every StateHelper operation against a dense Gaussian model that is kept beside the real state.
#include "vs.h"
using namespace vs;
using namespace ov_msckf;
using ov_type::IMU; using ov_type::PoseJPL; using ov_type::JPLQuat; using ov_type::Landmark;

struct World {
  SP s;
  Rng &r;
  std::vector<TP> vars;          // the variables the model says are in the state
  std::vector<Mat> val, fej;     // model values
  Mat P;                         // model covariance in the order of vars
  std::vector<TP> extra;         // clones made directly through StateHelper::clone
  std::vector<std::string> hist;
  World(Rng &r_) : r(r_) {}
  std::string h() const { std::string o; size_t b = hist.size() > 12 ? hist.size() - 12 : 0; for (size_t i = b; i < hist.size(); i++) o += hist[i] + " "; return o; }
  int off(const TP &t) const { int a = 0; for (auto &x : vars) { if (x == t) return a; a += x->size(); } return -1; }
  int idx(const TP &t) const { for (size_t i = 0; i < vars.size(); i++) if (vars[i] == t) return (int)i; return -1; }
  void pull() { val.clear(); fej.clear(); for (auto &x : vars) { val.push_back(x->value()); fej.push_back(x->fej()); } P = cov_of(s, vars); }
  /// the real state must equal the model; then continue from the real one so that rounding does not pile up
  void compare(const std::string &op, double rel = 1e-9) {
    count("op:" + op);
    std::string d = "after " + op + " [" + h() + "]";
    if (!check_tiling(s, vars, op, d)) { pull_safe(); return; }
    Mat Q = cov_of(s, vars);
    Vec sd = P.diagonal().cwiseAbs().cwiseMax(Q.diagonal().cwiseAbs()).cwiseMax(1e-300).cwiseSqrt();
    Mat C1 = sd.cwiseInverse().asDiagonal() * Q * sd.cwiseInverse().asDiagonal(), C2 = sd.cwiseInverse().asDiagonal() * P * sd.cwiseInverse().asDiagonal();
    near(C1, C2, std::max(rel, 1e-12), op + ":cov", d);
    check_cov(Q, op + ":cov", d, 1e-4);
    for (size_t i = 0; i < vars.size(); i++) {
      near(boxminus(vars[i], vars[i]->value(), val[i]), Vec::Zero(vars[i]->size()), rel * 10 + 1e-12, op + ":value", d);
      near(vars[i]->fej(), fej[i], 0, op + ":fej", d);
      check(vars[i]->value().allFinite(), op + ":value-finite", d);
    }
    for (auto &c : s->_clones_IMU) check(idx(c.second) >= 0, op + ":clone-lost", d);
    if (s->_options.do_calib_camera_intrinsics)
      for (auto &c : s->_cam_intrinsics) near(s->_cam_intrinsics_cameras.at(c.first)->get_value(), c.second->value(), 0, op + ":camera-object", d);
    distinct(op + fmt(" n%d v%d c%d f%d ", (int)P.rows(), (int)vars.size(), (int)s->_clones_IMU.size(), (int)s->_features_SLAM.size()) + optname(s->_options));
    pull();
  }
  void pull_safe() { if (total(vars) <= s->max_covariance_size()) { bool ok = true; for (auto &x : vars) if (x->id() < 0 || x->id() + x->size() > s->max_covariance_size()) ok = false; if (ok) pull(); } }

  struct Sub { TP t; int off; };
  /// a variable or sub-variable together with its offset in the model covariance
  Sub pick_sub() {
    TP v = r.pick(vars);
    int o = off(v);
    if (auto i = std::dynamic_pointer_cast<IMU>(v)) {
      switch (r.i(0, 6)) {
      case 0: return {i->pose(), o};
      case 1: return {i->q(), o};
      case 2: return {i->p(), o + 3};
      case 3: return {i->v(), o + 6};
      case 4: return {i->bg(), o + 9};
      case 5: return {i->ba(), o + 12};
      default: return {v, o};
      }
    }
    if (auto p = std::dynamic_pointer_cast<PoseJPL>(v)) {
      switch (r.i(0, 3)) {
      case 0: return {p->q(), o};
      case 1: return {p->p(), o + 3};
      default: return {v, o};
      }
    }
    return {v, o};
  }
  std::vector<Sub> pick_subs(int n, bool disjoint = true) {
    std::vector<Sub> o;
    std::vector<char> used(P.rows(), 0);
    for (int k = 0; k < 6 * n && (int)o.size() < n; k++) {
      Sub s1 = pick_sub();
      bool clash = false;
      for (int j = 0; j < s1.t->size(); j++) clash |= used[s1.off + j];
      if (clash && disjoint) continue;
      for (int j = 0; j < s1.t->size(); j++) used[s1.off + j] = 1;
      o.push_back(s1);
    }
    return o;
  }
  static std::vector<TP> types(const std::vector<Sub> &s) { std::vector<TP> o; for (auto &x : s) o.push_back(x.t); return o; }
  Mat embed(const Mat &H, const std::vector<Sub> &subs, int n) const {
    Mat F = Mat::Zero(H.rows(), n);
    int a = 0;
    for (auto &x : subs) { F.block(0, x.off, H.rows(), x.t->size()) += H.block(0, a, H.rows(), x.t->size()); a += x.t->size(); }
    return F;
  }
  Vec sds() const { return P.diagonal().cwiseMax(1e-16).cwiseSqrt(); }
  void apply_dx(const Vec &dx) { int a = 0; for (size_t i = 0; i < vars.size(); i++) { val[i] = boxplus(vars[i], val[i], dx.segment(a, vars[i]->size())); a += vars[i]->size(); } }
  void model_update(const Mat &F, const Vec &res, const Mat &R) {
    Mat S = F * P * F.transpose() + R;
    Mat K = S.ldlt().solve(F * P).transpose();
    Vec dx = K * res;
    Mat A = Mat::Identity(P.rows(), P.rows()) - K * F;
    P = (A * P * A.transpose() + K * R * K.transpose()).eval(); // Joseph form, unlike the code
    apply_dx(dx);
  }
  /// Jacobian scaled so that the predicted residual is of order one per row
  Mat rand_H(const std::vector<Sub> &subs, int m) {
    Mat H = r.mat(m, total(types(subs)));
    int a = 0;
    Vec sd = sds();
    for (auto &x : subs) { for (int k = 0; k < x.t->size(); k++, a++) H.col(a) /= std::max(sd(x.off + k), 2e-3) * 3; }
    if (r.p(0.2)) H.row(r.i(0, m - 1)).setZero();
    return H;
  }
};

static void op_update(World &w, Rng &r) {
  auto subs = w.pick_subs(r.i(1, 5), !r.p(0.1));
  if (subs.empty()) return;
  int m = r.i(1, 12);
  Mat H = w.rand_H(subs, m), R = r.psd(m, r.logu(0.05, 5), 0.1);
  if (r.p(0.4)) R = Mat(Mat::Identity(m, m) * r.logu(0.1, 4));
  Vec res = r.vec(m, 0.5);
  w.hist.push_back("update");
  w.model_update(w.embed(H, subs, w.P.rows()), res, R);
  StateHelper::EKFUpdate(w.s, World::types(subs), H, res, R);
  w.compare("update", 1e-6);
}
static void op_propagate(World &w, Rng &r) {
  // the new block: the inertial state, possibly with the inertial intrinsics that follow it
  std::vector<TP> nw{w.s->_imu};
  auto &o = w.s->_options;
  if (o.do_calib_imu_intrinsics && r.p(0.7)) {
    nw.push_back(w.s->_calib_imu_dw);
    nw.push_back(w.s->_calib_imu_da);
    if (o.do_calib_imu_g_sensitivity) nw.push_back(w.s->_calib_imu_tg);
    nw.push_back(o.imu_model == StateOptions::KALIBR ? TP(w.s->_calib_imu_GYROtoIMU) : TP(w.s->_calib_imu_ACCtoIMU));
  }
  std::vector<TP> old = nw;
  int extra = r.i(0, 2);
  for (int k = 0; k < extra; k++) { TP v = r.pick(w.vars); if (std::find(old.begin(), old.end(), v) == old.end()) old.push_back(v); }
  if (r.p(0.3)) std::shuffle(old.begin(), old.end(), r.g);
  int n = total(nw), m = total(old);
  // scaled so that the result keeps the scale of the variables
  Vec sd = w.sds(), sn(n), so(m);
  { int a = 0; for (auto &x : nw) for (int k = 0; k < x->size(); k++) sn(a++) = sd(w.off(x) + k); }
  { int a = 0; for (auto &x : old) for (int k = 0; k < x->size(); k++) so(a++) = sd(w.off(x) + k); }
  Mat Phi = sn.asDiagonal() * r.mat(n, m, 0.3) * so.cwiseInverse().asDiagonal();
  { int a = 0; for (auto &x : nw) { int b = 0; for (auto &y : old) { if (x == y) Phi.block(a, b, x->size(), x->size()) += Mat::Identity(x->size(), x->size()); b += y->size(); } a += x->size(); } }
  Mat Q = sn.asDiagonal() * r.psd(n, 0.3, 0.05) * sn.asDiagonal();
  Q = 0.5 * (Q + Q.transpose()).eval();
  Mat A = Mat::Identity(w.P.rows(), w.P.rows()), N = Mat::Zero(w.P.rows(), w.P.rows());
  int a = 0;
  for (auto &x : nw) {
    A.block(w.off(x), 0, x->size(), A.cols()).setZero();
    int b = 0;
    for (auto &y : old) { A.block(w.off(x), w.off(y), x->size(), y->size()) = Phi.block(a, b, x->size(), y->size()); b += y->size(); }
    int c = 0;
    for (auto &y : nw) { N.block(w.off(x), w.off(y), x->size(), y->size()) = Q.block(a, c, x->size(), y->size()); c += y->size(); }
    a += x->size();
  }
  w.P = (A * w.P * A.transpose() + N).eval();
  w.hist.push_back("propagate");
  StateHelper::EKFPropagation(w.s, nw, old, Phi, Q);
  w.compare("propagate", 1e-9);
}
static void grow(World &w, const TP &v, const Mat &val, const Mat &fej, const Mat &cross, const Mat &own) {
  int n = w.P.rows(), m = v->size();
  Mat Q(n + m, n + m);
  Q << w.P, cross.transpose(), cross, own;
  w.P = Q;
  w.vars.push_back(v);
  w.val.push_back(val);
  w.fej.push_back(fej);
}
static void op_clone(World &w, Rng &r) {
  World::Sub t = w.pick_sub();
  Mat cross = w.P.block(t.off, 0, t.t->size(), w.P.cols()), own = w.P.block(t.off, t.off, t.t->size(), t.t->size());
  w.hist.push_back("clone");
  Mat v = t.t->value(), f = t.t->fej();
  TP c = StateHelper::clone(w.s, t.t);
  if (!check(c != nullptr && c != t.t && c->size() == t.t->size(), "clone:object", w.h())) return;
  near(c->value(), v, 0, "clone:value");
  grow(w, c, v, f, cross, own);
  w.extra.push_back(c);
  w.compare("clone", 1e-13);
}
static void op_augment(World &w, Rng &r, double &time) {
  time += r.u(0.01, 0.2);
  w.s->_timestamp = time;
  V3 om = r.v3(0.5);
  int n = w.P.rows();
  // J maps the old state to (old state, clone)
  Mat J = Mat::Zero(n + 6, n);
  J.topRows(n).setIdentity();
  int io = w.off(w.s->_imu);
  J.block(n, io, 6, 6).setIdentity();
  if (w.s->_options.do_calib_camera_timeoffset) {
    int dto = w.off(w.s->_calib_dt_CAMtoIMU);
    J.block(n, dto, 3, 1) += om;
    J.block(n + 3, dto, 3, 1) += w.val[w.idx(w.s->_imu)].block(7, 0, 3, 1);
  }
  Mat v = w.s->_imu->pose()->value(), f = w.s->_imu->pose()->fej();
  size_t before = w.s->_clones_IMU.size();
  w.hist.push_back("augment");
  StateHelper::augment_clone(w.s, om);
  if (!check(w.s->_clones_IMU.size() == before + 1 && w.s->_clones_IMU.count(time) == 1, "augment:map", w.h())) return;
  w.P = (J * w.P * J.transpose()).eval();
  w.vars.push_back(w.s->_clones_IMU.at(time));
  w.val.push_back(v);
  w.fej.push_back(f);
  w.compare("augment", 1e-11);
}
static void shrink(World &w, const TP &t) {
  int i = w.idx(t), o = w.off(t), m = w.vars[i]->size(), n = w.P.rows();
  std::vector<int> keep;
  for (int k = 0; k < n; k++) if (k < o || k >= o + m) keep.push_back(k);
  Mat Q(keep.size(), keep.size());
  for (size_t a = 0; a < keep.size(); a++) for (size_t b = 0; b < keep.size(); b++) Q(a, b) = w.P(keep[a], keep[b]);
  w.P = Q;
  w.vars.erase(w.vars.begin() + i);
  w.val.erase(w.val.begin() + i);
  w.fej.erase(w.fej.begin() + i);
}
static void op_marg(World &w, Rng &r) {
  // anything but the inertial state may be marginalized; a clone or landmark is taken out of its map as callers do
  std::vector<TP> c;
  for (auto &x : w.extra) c.push_back(x);
  for (auto &x : w.s->_clones_IMU) c.push_back(x.second);
  for (auto &x : w.s->_features_SLAM) c.push_back(x.second);
  if (c.empty()) return;
  TP t = r.pick(c);
  w.hist.push_back("marginalize");
  shrink(w, t);
  StateHelper::marginalize(w.s, t);
  check(t->id() == -1, "marginalize:id", w.h());
  w.extra.erase(std::remove(w.extra.begin(), w.extra.end(), t), w.extra.end());
  for (auto it = w.s->_clones_IMU.begin(); it != w.s->_clones_IMU.end();) { if (it->second == t) it = w.s->_clones_IMU.erase(it); else ++it; }
  for (auto it = w.s->_features_SLAM.begin(); it != w.s->_features_SLAM.end();) { if (it->second == t) it = w.s->_features_SLAM.erase(it); else ++it; }
  w.compare("marginalize", 0);
}
static void op_margold(World &w, Rng &r) {
  bool full = (int)w.s->_clones_IMU.size() > w.s->_options.max_clone_size;
  w.hist.push_back("marg-old-clone");
  std::map<double, std::shared_ptr<PoseJPL>> before = w.s->_clones_IMU;
  if (full) { near(w.s->margtimestep(), before.begin()->first, 0, "margtimestep"); shrink(w, before.begin()->second); before.erase(before.begin()); }
  StateHelper::marginalize_old_clone(w.s);
  check(before == w.s->_clones_IMU, "marg-old-clone:which", w.h());
  w.compare(full ? "marg-old-clone" : "marg-old-clone-noop", 0);
}
static void op_margslam(World &w, Rng &r) {
  std::vector<size_t> gone;
  for (auto &f : w.s->_features_SLAM) {
    f.second->should_marg = r.p(0.4);
    if (f.second->should_marg && (long)f.first > 4L * w.s->_options.max_aruco_features) { gone.push_back(f.first); shrink(w, f.second); }
  }
  auto before = w.s->_features_SLAM;
  for (size_t g : gone) before.erase(g);
  w.hist.push_back("marg-slam");
  StateHelper::marginalize_slam(w.s);
  check(before == w.s->_features_SLAM, "marg-slam:which", w.h());
  w.compare("marg-slam", 0);
}
static void op_init(World &w, Rng &r, size_t &nextid) {
  int dim = r.p(0.7) ? 3 : r.i(1, 6);
  bool landmark = dim == 3 || dim == 1;
  TP v;
  std::shared_ptr<Landmark> lm;
  if (landmark) { lm = std::make_shared<Landmark>(dim); lm->_feat_representation = dim == 3 ? Rep::GLOBAL_3D : Rep::ANCHORED_INVERSE_DEPTH_SINGLE; v = lm; }
  else v = std::make_shared<ov_type::Vec>(dim);
  Mat x0 = r.vec(dim, 2);
  set_both(v, x0);
  auto subs = w.pick_subs(r.i(1, 4));
  if (subs.empty()) return;
  bool invertible = r.p(0.4);
  int m = invertible ? dim : dim + r.i(0, 10);
  Mat HR = w.rand_H(subs, m), HL;
  do HL = r.mat(m, dim); while (Eigen::JacobiSVD<Mat>(HL).singularValues().minCoeff() < 0.3);
  double s2 = r.logu(0.1, 4);
  Mat R = s2 * Mat::Identity(m, m);
  Mat F = w.embed(HR, subs, w.P.rows());
  // a residual that is small, or far outside every possible gate
  bool big = !invertible && m > dim && r.p(0.2);
  Mat Pz = F * w.P * F.transpose() + R;
  Vec res = Pz.llt().matrixL() * r.vec(m, big ? 60 : 0.3);
  if (r.p(0.5)) res += HL * r.vec(dim, 2);
  Mat Q = Eigen::HouseholderQR<Mat>(HL).householderQ() * Mat::Identity(m, m);
  double chi = -1;
  Mat Q2 = Q.rightCols(m - dim);
  if (m > dim) { Vec r2 = Q2.transpose() * res; Mat S = Q2.transpose() * F * w.P * F.transpose() * Q2 + s2 * Mat::Identity(m - dim, m - dim); chi = r2.dot(S.ldlt().solve(r2)); }
  bool expect = true;
  double mult = (double)r.i(1, 4);
  if (big) { if (chi < 20 * mult * m + 100) return; expect = false; }
  else if (m > dim && chi > 0.3 * mult * (m - dim)) return; // too close to the gate for an opinion
  Mat Q1 = Q.leftCols(dim), Linv = (Q1.transpose() * HL).inverse();
  World::Sub none;
  std::string nm = invertible ? "initialize-invertible" : expect ? "initialize" : "initialize-gated";
  w.hist.push_back(nm);
  bool got = true;
  Mat a = HR, b = HL, c = R;
  Vec d = res;
  if (invertible) StateHelper::initialize_invertible(w.s, v, World::types(subs), a, b, c, d);
  else got = StateHelper::initialize(w.s, v, World::types(subs), a, b, c, d, mult);
  if (!check(got == expect, nm + ":decision", fmt("chi2 %.4g of %d rows, mult %.2g", chi, m - dim, mult))) { if (got) { w.vars.push_back(v); w.extra.push_back(v); w.pull_safe(); } return; }
  if (!expect) { w.compare(nm, 0); return; }
  // new variable from the first block of rows, then an update with the rest
  Mat X = -Linv * Q1.transpose() * F; // d(new)/d(state)
  Mat own = X * w.P * X.transpose() + s2 * Linv * Linv.transpose();
  grow(w, v, Mat(x0 + Linv * (Q1.transpose() * res)), x0, X * w.P, own);
  if (m > dim) {
    Mat F2 = Mat::Zero(m - dim, w.P.rows());
    F2.leftCols(F.cols()) = Q2.transpose() * F;
    w.model_update(F2, Q2.transpose() * res, s2 * Mat::Identity(m - dim, m - dim));
  }
  if (landmark) {
    size_t id = nextid++;
    if (r.p(0.2)) id = r.i(0, 12); // could be an aruco identity
    if (!w.s->_features_SLAM.count(id)) { lm->_featid = id; w.s->_features_SLAM[id] = lm; }
    else w.extra.push_back(v);
  } else w.extra.push_back(v);
  w.compare(nm, 1e-5);
}
static void op_setcov(World &w, Rng &r, bool all = false) {
  // a consistent joint covariance of a subset: take the current one and scale it, so that the whole stays positive definite
  std::vector<TP> sel;
  for (auto &x : w.vars) if (all || r.p(0.4)) sel.push_back(x);
  if (sel.empty()) sel.push_back(w.s->_imu);
  std::shuffle(sel.begin(), sel.end(), r.g);
  int n = total(sel);
  Mat A(n, n);
  std::vector<int> id;
  for (auto &x : sel) for (int k = 0; k < x->size(); k++) id.push_back(w.off(x) + k);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = w.P(id[i], id[j]);
  Vec d = A.diagonal();
  Vec infl = 0.2 * d.cwiseProduct(r.vec(n).cwiseAbs());
  if (all) infl = (0.05 * d).cwiseMax(1e-6);
  A += Mat(infl.asDiagonal());
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) w.P(id[i], id[j]) = A(i, j);
  w.hist.push_back("set-cov");
  StateHelper::set_initial_covariance(w.s, A, sel);
  w.compare("set-cov", 0);
}
static void op_query(World &w, Rng &r) {
  auto subs = w.pick_subs(r.i(1, 6), r.p(0.7));
  if (subs.empty()) return;
  Mat M = StateHelper::get_marginal_covariance(w.s, World::types(subs));
  int n = total(World::types(subs));
  if (!check(M.rows() == n && M.cols() == n, "marginal:size", w.h())) return;
  Mat E(n, n);
  int a = 0;
  for (auto &x : subs) { int b = 0; for (auto &y : subs) { E.block(a, b, x.t->size(), y.t->size()) = w.P.block(x.off, y.off, x.t->size(), y.t->size()); b += y.t->size(); } a += x.t->size(); }
  near(M, E, 0, "marginal:blocks", w.h());
  w.hist.push_back("query");
  w.compare("query", 0);
}

int main(int argc, char **argv) {
  vh::init(argc, argv);
  ov_core::Printer::setPrintLevel("SILENT");
  long total_cases = ctx().a.thorough() ? 6000 : 240;
  run_cases(total_cases, [&](long c, Rng &r) {
    StateOptions o = rand_options(r);
    World w(r);
    w.s = make_state(o, r);
    w.vars = variables(w.s);
    check_tiling(w.s, w.vars, "fresh");
    w.pull();
    rand_cov(w.s, w.vars, r);
    w.pull();
    double time = r.u(0, 100);
    size_t nextid = 4 * o.max_aruco_features + 1 + r.i(0, 5);
    int steps = r.i(20, 60);
    for (int k = 0; k < steps; k++) {
      double u = r.u();
      if (k % 8 == 7) op_setcov(w, r, true); // keeps the problem well conditioned
      if (w.P.rows() > 220) op_marg(w, r);
      else if (u < 0.22) op_update(w, r);
      else if (u < 0.34) op_propagate(w, r);
      else if (u < 0.50) op_augment(w, r, time);
      else if (u < 0.56) op_clone(w, r);
      else if (u < 0.74) op_init(w, r, nextid);
      else if (u < 0.80) op_marg(w, r);
      else if (u < 0.88) op_margold(w, r);
      else if (u < 0.92) op_margslam(w, r);
      else if (u < 0.95) op_setcov(w, r);
      else op_query(w, r);
    }
    if (c < 2) sample(optname(o) + " history " + w.h() + fmt(" final dimension %d", (int)w.P.rows()));
    maxv("largest covariance", w.P.rows());
  });
  return finish();
}
