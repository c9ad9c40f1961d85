// S17: the real estimator on the real simulator's data, its estimate and covariance against the simulator's truth.
#include <boost/math/distributions/chi_squared.hpp>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include "vpipe.h"
using namespace vsys;
typedef Eigen::Matrix<double, 17, 1> S17;

struct Item { std::string name; TP var; Mat truth; };
/// every estimated quantity with its true value
static std::vector<Item> items(Pipe &p, double dt_used) {
  SP s = p.s();
  std::vector<Item> o;
  S17 x, y;
  double t = s->_timestamp;
  if (p.sim->get_state(t + dt_used, x)) {
    Mat pose(7, 1);
    pose << x.segment(1, 7);
    o.push_back({"orientation", s->_imu->q(), pose.topRows(4)});
    o.push_back({"position", s->_imu->p(), pose.bottomRows(3)});
    o.push_back({"velocity", s->_imu->v(), x.segment(8, 3)});
    o.push_back({"gyro-bias", s->_imu->bg(), x.segment(11, 3)});
    o.push_back({"accel-bias", s->_imu->ba(), x.segment(14, 3)});
    o.push_back({"imu", s->_imu, x.segment(1, 16)});
  }
  if (!s->_clones_IMU.empty()) {
    auto c = *s->_clones_IMU.begin();
    if (p.sim->get_state(c.first + p.truth.calib_camimu_dt, y)) o.push_back({"clone", c.second, y.segment(1, 7)});
  }
  auto &op = s->_options;
  for (int i = 0; i < op.num_cameras; i++) {
    if (op.do_calib_camera_pose) o.push_back({"extrinsics", s->_calib_IMUtoCAM.at(i), p.truth.camera_extrinsics.at(i)});
    if (op.do_calib_camera_intrinsics) o.push_back({"intrinsics", s->_cam_intrinsics.at(i), p.truth.camera_intrinsics.at(i)->get_value()});
  }
  if (op.do_calib_camera_timeoffset) o.push_back({"offset", s->_calib_dt_CAMtoIMU, Mat::Constant(1, 1, p.truth.calib_camimu_dt)});
  if (op.do_calib_imu_intrinsics) {
    o.push_back({"gyro-scale", s->_calib_imu_dw, p.truth.vec_dw});
    o.push_back({"accel-scale", s->_calib_imu_da, p.truth.vec_da});
    if (op.imu_model == SO::KALIBR) o.push_back({"gyro-rotation", s->_calib_imu_GYROtoIMU, p.truth.q_GYROtoIMU});
    else o.push_back({"accel-rotation", s->_calib_imu_ACCtoIMU, p.truth.q_ACCtoIMU});
    if (op.do_calib_imu_g_sensitivity) o.push_back({"g-sensitivity", s->_calib_imu_tg, p.truth.vec_tg});
  }
  return o;
}
static double cdf(double x, int n) { return boost::math::cdf(boost::math::chi_squared(n), std::max(0.0, x)); }
/// what remains on exact data: float pixels, undistortion and integration between readings (continuous, constant readings)
static const std::map<std::string, std::pair<double, double>> EXACT = {
    {"orientation", {5e-4, 0.035}}, {"position", {4e-3, 0.25}}, {"velocity", {3e-3, 0.13}}, {"gyro-bias", {2e-4, 0.014}}, {"accel-bias", {1.4e-3, 0.1}},
    {"clone", {4e-3, 0.2}}, {"extrinsics", {6e-4, 0.04}}, {"intrinsics", {0.08, 3}}, {"offset", {5e-5, 5e-3}}, {"gyro-scale", {2e-4, 0.014}},
    {"accel-scale", {3e-4, 0.016}}, {"gyro-rotation", {1e-4, 8e-3}}, {"accel-rotation", {1.5e-4, 0.011}}, {"g-sensitivity", {6e-5, 3e-3}}};
/// what a noisy run stays within, but for a small share
static const std::map<std::string, double> NOISY = {{"orientation", 0.06}, {"position", 0.4}, {"velocity", 0.2}, {"gyro-bias", 0.05}, {"accel-bias", 0.08}, {"clone", 0.4}};

static void one(long c, Rng &r) {
  int mode = c % 4; // 0 exact data, 1 2 noise, 3 noise and a wrong calibration
  Opt o = filter_options(r, 0, false, mode == 0 ? 0.2 : 0.5);
  unfold(o, r);
  auto &so = o.state_options;
  o.featinit_options.refine_features = true; // without it hardly any parallax is asked for
  if (so.integration_method == SO::DISCRETE) o.sim_freq_imu = r.u(300, 400); // constant readings over an interval
  bool longer = mode == 3;
  if (mode == 3) {
    so.do_calib_camera_pose = so.do_calib_camera_intrinsics = so.do_calib_camera_timeoffset = true;
    o.sim_do_perturbation = true;
  }
  Motion m(r, r.u(1, 2.5), r.u(0.3, 0.8), r.u(0, 0.5));
  double dur = longer ? r.u(14, 18) : r.u(8, 11);
  uint64_t es = r.i(0, 1 << 30);
  Rng e1(es);
  Pipe p(o, m, dur, mode == 0 ? nullptr : &e1, mode == 0);
  if (p.start < 0) { fail("start", name(o)); return; }
  std::string info = name(o) + fmt(" mode%d", mode);
  distinct(info);
  bool twin = r.p(0.15);
  std::shared_ptr<Pipe> q;
  Rng e2(es);
  if (twin) q = std::make_shared<Pipe>(o, m, dur, mode == 0 ? nullptr : &e2, mode == 0);
  Frame f, g;
  double dt_used = p.given.calib_camimu_dt;
  std::map<TP, double> first;
  for (auto &x : items(p, dt_used)) first[x.var] = boxminus(x.var, x.truth, x.var->value()).norm();
  // what of a wrong calibration this motion lets it find
  static const std::set<std::string> found = {"extrinsics", "intrinsics", "offset", "gyro-scale", "accel-scale", "g-sensitivity"};
  std::vector<V3> map;
  for (auto &x : p.sim->get_map()) map.push_back(x.second);
  long n = 0;
  double tend = p.start + dur - 2.0, next = p.start + 3;
  while (p.next(f)) {
    if (f.t <= p.s()->_timestamp + 0.001) continue;
    double d = p.s()->_calib_dt_CAMtoIMU->value()(0);
    p.feed(f);
    dt_used = d;
    n++;
    count("frames");
    if (q) {
      do { if (!q->next(g)) { fail("twin:stream", info); return; } } while (g.t <= q->s()->_timestamp + 0.001);
      check(g.t == f.t, "twin:time", info);
      q->feed(g);
      auto a = variables(p.s()), b = variables(q->s());
      bool same = a.size() == b.size();
      for (size_t i = 0; same && i < a.size(); i++) same = a[i]->value() == b[i]->value() && a[i]->fej() == b[i]->fej();
      if (!check(same, "twin:estimate", info + fmt(" frame %ld", n))) return;
      if (!check(cov_of(p.s(), a) == cov_of(q->s(), b), "twin:covariance", info + fmt(" frame %ld", n))) return;
      count("twin");
    }
    if (f.t < next) continue;
    next += 2;
    bool last = f.t > tend - 2;
    for (auto &x : items(p, dt_used)) {
      Vec e = boxminus(x.var, x.truth, x.var->value());
      Mat P = ov_msckf::StateHelper::get_marginal_covariance(p.s(), {x.var});
      double nees = e.dot(P.ldlt().solve(e)), pr = cdf(nees, e.size());
      std::string k = (mode == 0 ? "exact:" : mode == 3 ? "wrong:" : "noisy:") + x.name;
      bool disc = so.integration_method == SO::DISCRETE;
      count(k);
      if (mode == 0) {
        if (x.name == "imu") continue;
        auto lim = EXACT.at(x.name);
        maxv(k + (disc ? " discrete" : " continuous"), e.norm());
        check(e.norm() < (disc ? lim.second : lim.first), k, info + fmt(" error %.4g %.1f s after the start", e.norm(), f.t - p.start));
        continue;
      }
      if (pr > 0.5) count(k + ":upper");
      if (pr > 0.95) count(k + ":tail");
      if (pr > 0.999) count(k + ":far");
      auto lim = NOISY.find(x.name);
      if (lim != NOISY.end() && e.norm() > lim->second) count(k + ":large");
      if (x.name == "imu")
        for (auto &g : {fmt("int%d", (int)so.integration_method), fmt("rep%d", (int)so.feat_rep_slam), fmt("fej%d", so.do_fej), fmt("stereo%d", o.use_stereo && so.num_cameras > 1), fmt("cams%d", so.num_cameras), fmt("slam%d", so.max_slam_features > 0), fmt("imuint%d", so.do_calib_imu_intrinsics), fmt("model%d", (int)so.imu_model)}) {
          count("group:" + g);
          if (pr > 0.5) count("group:" + g + ":upper");
          if (pr > 0.95) count("group:" + g + ":tail");
        }
      if (mode == 3 && last && first[x.var] > 0 && found.count(x.name)) {
        count("end:" + x.name);
        if (e.norm() < first[x.var]) count("end:" + x.name + ":smaller");
      }
      if (getenv("VP_ROWS")) printf("ROW %d %s %g %g %g %g %s\n", mode, x.name.c_str(), f.t - p.start, e.norm(), pr, first[x.var], (info + fmt(" case%ld", c)).c_str());
    }
    // what it reports of the map
    auto report = [&](const std::string &what, const V3 &y) {
      double best = 1e9;
      for (auto &z : map) best = std::min(best, (z - y).norm());
      double rel = best / (1 + (y - p.s()->_imu->pos()).norm());
      bool disc = so.integration_method == SO::DISCRETE;
      std::string k = std::string(mode == 0 ? (disc ? "exact-discrete:" : "exact:") : "noisy:") + what;
      count(k);
      if (mode == 0 && !disc) { check(rel < 3e-3, k, info + fmt(" %.3g of its distance from the nearest point of the map", rel)); maxv(k + " distance", rel); }
      else if (rel > 0.05) count(k + ":off");
    };
    for (auto &y : p.vio->get_good_features_MSCKF()) report("msckf-points", y);
    for (auto &y : p.vio->get_features_SLAM()) report("landmarks", y);
    double ta;
    std::unordered_map<size_t, Eigen::Vector3d> pos, uvd;
    p.vio->get_active_tracks(ta, pos, uvd);
    for (auto &y : pos) report("tracks", y.second);
  }
  sample(fmt("{\"run\": \"%s\", \"frames\": %ld, \"seconds\": %.2f}", info.c_str(), n, p.s()->_timestamp - p.start));
  check(n > 20, "run:short", info + fmt(" %ld frames", n));
}
/// the program run_simulation with a configuration like the shipped one
extern std::shared_ptr<ov_msckf::Simulator> sim;
extern std::shared_ptr<ov_msckf::VioManager> sys;
int vp_run_simulation_main(int, char **);
static void program(long, Rng &r) {
  std::string dir = scratch_file("config");
  mkdir(dir.c_str(), 0700);
  Motion m(r, r.u(1, 2.5), r.u(0.3, 0.8), r.u(0, 0.5));
  std::string traj = write_traj(m, r.u(0, 50), r.u(6, 9), 0.06, dir + "/traj.txt");
  std::map<std::string, std::string> set = {{"verbosity", "\"SILENT\""}, {"sim_traj_path", "\"" + traj + "\""}, {"sim_do_perturbation", r.p(0.7) ? "true" : "false"},
    {"sim_seed_state_init", std::to_string(r.i(0, 1000))}, {"sim_seed_preturb", std::to_string(r.i(0, 1000))}, {"sim_seed_measurements", std::to_string(r.i(0, 1000))},
    {"sim_freq_imu", std::to_string(r.i(2, 4) * 100)}, {"sim_freq_cam", std::to_string(r.i(8, 15))}, {"num_pts", std::to_string(r.i(60, 120))}, {"max_cameras", r.p(0.5) ? "1" : "2"},
    {"use_stereo", r.p(0.5) ? "true" : "false"}, {"use_fej", r.p(0.5) ? "true" : "false"}, {"integration", r.p(0.5) ? "\"rk4\"" : "\"analytical\""},
    {"calib_imu_intrinsics", r.p(0.5) ? "true" : "false"}, {"calib_imu_g_sensitivity", r.p(0.5) ? "true" : "false"}};
  if (set["calib_imu_intrinsics"] == "false") set["calib_imu_g_sensitivity"] = "false";
  std::string info;
  for (auto &x : set) if (x.first != "sim_traj_path") info += x.first + "=" + x.second + " ";
  for (std::string f : {"estimator_config.yaml", "kalibr_imu_chain.yaml", "kalibr_imucam_chain.yaml"}) {
    std::ifstream in(std::string(getenv("VP_REPO")) + "/config/rpng_sim/" + f);
    std::ofstream out(dir + "/" + f);
    std::string l;
    while (std::getline(in, l)) {
      auto k = l.substr(0, l.find(':'));
      if (f[0] == 'e' && set.count(k)) l = k + ": " + set[k];
      out << l << "\n";
    }
  }
  ctx().out.flush();
  fflush(0);
  int io[2];
  if (pipe(io)) { perror("pipe"); exit(3); }
  pid_t pid = fork();
  if (pid == 0) {
    std::string a0 = "run_simulation", a1 = dir + "/estimator_config.yaml";
    char *argv[] = {&a0[0], &a1[0], nullptr};
    int rc = vp_run_simulation_main(2, argv);
    if (rc) _exit(rc);
    double e[3] = {-1, -1, -1};
    auto s = sys->get_state();
    S17 x;
    if (sim->get_state(s->_timestamp + s->_calib_dt_CAMtoIMU->value()(0), x)) {
      Mat pose = x.segment(1, 7);
      e[0] = boxminus(s->_imu->q(), pose.topRows(4), s->_imu->quat()).norm();
      e[1] = (V3(pose.bottomRows(3)) - s->_imu->pos()).norm();
      e[2] = s->_timestamp - sys->initialized_time();
    }
    if (write(io[1], e, sizeof e) != sizeof e) _exit(99);
    _exit(77);
  }
  close(io[1]);
  double e[3] = {-1, -1, -1};
  bool got = read(io[0], e, sizeof e) == sizeof e;
  close(io[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  for (std::string f : {"estimator_config.yaml", "kalibr_imu_chain.yaml", "kalibr_imucam_chain.yaml", "traj.txt"}) unlink((dir + "/" + f).c_str());
  rmdir(dir.c_str());
  distinct("program " + info);
  if (!check(WIFEXITED(st) && WEXITSTATUS(st) == 77 && got, "program:exit", info + fmt("wait status %d", st))) return;
  count("program");
  maxv("program orientation", e[0]);
  maxv("program position", e[1]);
  check(e[2] > 3, "program:short", info + fmt("%.3g s of estimates", e[2]));
  check(e[0] >= 0 && e[0] < 0.2 && e[1] < 1.5, "program:estimate", info + fmt("orientation %.4g position %.4g off", e[0], e[1]));
}
static void all(long c, Rng &r) {
  if (c % 15 == 14) program(c, r);
  else one(c, r);
}
int main(int argc, char **argv) {
  init(argc, argv);
  ov_core::Printer::setPrintLevel(getenv("VP_PRINT") ? "ALL" : "SILENT");
  run_cases(ctx().a.thorough() ? 6000 : 480, all);
  return finish();
}
