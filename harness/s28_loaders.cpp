// S28: every file reader returns exactly the written rows; unusable files terminate with an error.
#include "vh.h"
#include "utils/Loader.h"
#include "utils/dataset_reader.h"
#include "utils/print.h"
#include <sys/wait.h>
using namespace vh;
typedef Eigen::Matrix<double, 7, 1> P7;

static std::string path;
static std::string num(Rng &r, double v) {
  switch (r.i(0, 3)) {
  case 0: return fmt("%.17g", v);
  case 1: return fmt("%.17e", v);
  case 2: return (v >= 0 ? "+" : "") + fmt("%.17g", v);
  default: return fmt("%.20f", v);
  }
}
static double val(Rng &r) {
  switch (r.i(0, 4)) {
  case 0: return r.n(1);
  case 1: return r.i(-100, 100);
  case 2: return r.n(1e4);
  case 3: return r.u(-1, 1);
  default: return 0;
  }
}
/// what a reader gets back from the text: the same conversion the C library makes
static double rd(const std::string &s) { return strtod(s.c_str(), 0); }
static std::string comment(Rng &r) {
  static const char *c[] = {"#", "# 1 2 3 4 5 6 7 8 9 10", "#timestamp(s) tx ty tz qx qy qz qw", "#1,2,3,4,5,6,7,8"};
  return c[r.i(0, 3)];
}
/// joins fields with the separator, sometimes with blank fields in between (extra separators)
static std::string join(Rng &r, const std::vector<std::string> &f, char sep, bool blanks) {
  std::string o;
  if (blanks && r.p(0.2)) o += sep;
  for (size_t k = 0; k < f.size(); k++) {
    o += f[k];
    if (k + 1 < f.size()) o += sep;
    if (blanks && r.p(0.1)) o += sep;
  }
  if (blanks && r.p(0.2)) o += sep;
  return o;
}
static void write(Rng &r, const std::vector<std::string> &lines) {
  std::ofstream f(path, std::ios::trunc);
  for (size_t k = 0; k < lines.size(); k++) {
    f << lines[k];
    if (k + 1 < lines.size() || r.p(0.7)) f << "\n"; // sometimes no newline at the end
  }
}
/// true if f() terminated the process with a failure status, false if it returned
static int terminated(const std::function<void()> &f) {
  ctx().out.flush();
  fflush(0);
  pid_t p = fork();
  if (p == 0) {
    try { f(); } catch (...) { _exit(88); }
    _exit(77);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFEXITED(st)) return WEXITSTATUS(st) == 77 ? 0 : (WEXITSTATUS(st) == EXIT_FAILURE ? 1 : 2);
  return 3; // killed by a signal
}

static void trajectory(Rng &r) { // space separated, with or without covariance
  bool cov = r.p(0.5), blanks = r.p(0.5);
  int n = r.p(0.1) ? 1 : r.i(2, 40), ncol = cov ? r.i(20, 24) : r.i(8, 19);
  std::vector<std::string> lines;
  std::vector<double> t;
  std::vector<P7> p;
  std::vector<M3> co, cp;
  int junk = 0;
  for (int k = 0; k < n; k++) {
    while (r.p(0.2)) { lines.push_back(r.p(0.5) ? comment(r) : r.p(0.5) ? "" : join(r, std::vector<std::string>(r.i(1, 7), "3.5"), ' ', blanks)); junk++; }
    std::vector<std::string> f;
    std::vector<double> v;
    for (int c = 0; c < ncol; c++) { f.push_back(num(r, c == 0 ? 1.4e9 + k * 0.05 + r.u(0, 0.01) : val(r))); v.push_back(rd(f.back())); }
    lines.push_back(join(r, f, ' ', blanks));
    t.push_back(v[0]);
    P7 x; for (int c = 0; c < 7; c++) x(c) = v[1 + c];
    p.push_back(x);
    if (cov) {
      auto sym = [&](int o) { M3 m; m << v[o], v[o + 1], v[o + 2], v[o + 1], v[o + 3], v[o + 4], v[o + 2], v[o + 4], v[o + 5]; return m; };
      co.push_back(sym(8)); cp.push_back(sym(14));
    }
  }
  write(r, lines);
  std::vector<double> T; std::vector<P7> P; std::vector<M3> CO, CP;
  std::string d = fmt("%d rows, %d columns, %d other lines", n, ncol, junk);
  ov_eval::Loader::load_data(path, T, P, CO, CP);
  if (check((int)T.size() == n && P.size() == T.size(), "load_data:rows", fmt("%d times %d poses; ", (int)T.size(), (int)P.size()) + d) &&
      check((int)CO.size() == (cov ? n : 0) && CP.size() == CO.size(), "load_data:covariance-rows", d)) {
    for (int k = 0; k < n; k++) {
      near(T[k], t[k], 0, "load_data:time", d);
      near(P[k], p[k], 0, "load_data:pose", d);
      if (cov) { near(CO[k], co[k], 0, "load_data:cov-ori", d); near(CP[k], cp[k], 0, "load_data:cov-pos", d); }
    }
    double L = 0;
    for (int k = 1; k < n; k++) L += std::sqrt(std::pow(p[k](0) - p[k - 1](0), 2) + std::pow(p[k](1) - p[k - 1](1), 2) + std::pow(p[k](2) - p[k - 1](2), 2));
    near(ov_eval::Loader::get_total_length(P), L, 1e-9 * (1 + L), "total_length", d);
  }
  // the same file read as a simulated trajectory: every row with at least eight values
  std::vector<Vec> tr;
  ov_core::DatasetReader::load_simulated_trajectory(path, tr);
  if (check((int)tr.size() == n, "simulated_trajectory:rows", fmt("%d; ", (int)tr.size()) + d))
    for (int k = 0; k < n; k++) { Vec e(8); e << t[k], p[k]; near(tr[k], e, 0, "simulated_trajectory:values", d); }
  count("rows", n); count("file:trajectory"); count("skipped-lines", junk);
  distinct(fmt("traj:%d:%d:%d:%d", cov, blanks, ncol, std::min(n, 10)));
}

static void csv(Rng &r) { // ASL: ns, position, quaternion wxyz, rest
  int n = r.i(1, 40), ncol = r.i(8, 24);
  bool blanks = r.p(0.3);
  std::vector<std::string> lines;
  std::vector<double> t; std::vector<P7> p;
  for (int k = 0; k < n; k++) {
    while (r.p(0.15)) lines.push_back(r.p(0.5) ? comment(r) : r.p(0.5) ? "" : join(r, std::vector<std::string>(r.i(1, 7), "3.5"), ',', false));
    std::vector<std::string> f; std::vector<double> v;
    for (int c = 0; c < ncol; c++) { f.push_back(c == 0 ? fmt("%lld", 1403636579000000000LL + 50000000LL * k + r.i(0, 1000000)) : num(r, val(r))); v.push_back(rd(f.back())); }
    lines.push_back(join(r, f, ',', blanks));
    t.push_back(1e-9 * v[0]);
    P7 x; x << v[1], v[2], v[3], v[5], v[6], v[7], v[4];
    p.push_back(x);
  }
  write(r, lines);
  std::vector<double> T; std::vector<P7> P; std::vector<M3> CO, CP;
  ov_eval::Loader::load_data_csv(path, T, P, CO, CP);
  if (check((int)T.size() == n && P.size() == T.size(), "load_csv:rows", fmt("%d of %d", (int)T.size(), n)))
    for (int k = 0; k < n; k++) { near(T[k], t[k], 1e-6, "load_csv:time"); near(P[k], p[k], 0, "load_csv:pose", fmt("row %d", k)); }
  check(CO.empty() && CP.empty(), "load_csv:cov");
  count("rows", n); count("file:csv");
  distinct(fmt("csv:%d:%d:%d", blanks, ncol, std::min(n, 10)));
}

static void groundtruth(Rng &r) { // header line, 17 comma separated values, lookups
  int n = r.i(1, 60);
  double t0 = 1403636579.0 + r.u(0, 1), dt = r.p(0.5) ? 0.005 : r.u(0.05, 0.5);
  std::vector<std::string> lines{r.p(0.5) ? "#timestamp, p_RS_R_x [m], p_RS_R_y [m]" : "1,2,3"};
  std::map<double, Vec> ref;
  std::vector<long long> ns;
  long long cur = (long long)(t0 * 1e9);
  std::vector<std::pair<long long, std::string>> rows;
  for (int k = 0; k < n; k++) {
    cur += (long long)(1e9 * dt * (r.p(0.1) ? r.u(2, 8) : r.u(0.9, 1.1)));
    std::vector<std::string> f{fmt("%lld", cur)}; Vec v(17); v(0) = rd(f[0]);
    for (int c = 1; c < 17; c++) { f.push_back(num(r, val(r))); v(c) = rd(f.back()); }
    rows.push_back({cur, join(r, f, ',', false)});
    ref[1e-9 * v(0)] = v;
  }
  if (r.p(0.3)) std::shuffle(rows.begin(), rows.end(), r.g); // the map is ordered by time whatever the file order
  for (auto &x : rows) lines.push_back(x.second);
  bool blank = r.p(0.2);
  if (blank) lines.push_back("");
  if (blank) { std::ofstream f(path, std::ios::trunc); for (auto &l : lines) f << l << "\n"; }
  else write(r, lines);
  std::map<double, Eigen::Matrix<double, 17, 1>> gt;
  gt[3.0].setOnes(); // old data must go
  ov_core::DatasetReader::load_gt_file(path, gt);
  bool ok = check(gt.size() == ref.size(), blank ? "gt:rows-blank-line" : "gt:rows", fmt("%d of %d", (int)gt.size(), (int)ref.size()));
  for (auto &x : ref) {
    auto it = gt.find(x.first);
    if (!check(it != gt.end(), "gt:missing", fmt("%.9f", x.first))) { ok = false; continue; }
    near(it->second, x.second, 0, "gt:values");
  }
  if (ok)
    for (int q = 0; q < 30; q++) {
      double t = r.u(ref.begin()->first - 0.5, ref.rbegin()->first + 0.5);
      if (r.p(0.3)) { auto it = ref.begin(); std::advance(it, r.i(0, (int)ref.size() - 1)); t = it->first + (r.p(0.5) ? 0 : r.u(-0.2, 0.2)); }
      double best = 1e300, bt = 0;
      for (auto &x : ref) if (std::abs(x.first - t) < best) { best = std::abs(x.first - t); bt = x.first; }
      double second = 1e300;
      for (auto &x : ref) if (x.first != bt) second = std::min(second, std::abs(x.first - t));
      if (std::abs(best - 0.10) < 1e-6 || second - best < 1e-6) continue;
      Eigen::Matrix<double, 17, 1> s; s.setConstant(-77);
      bool got = ov_core::DatasetReader::get_gt_state(t, s, gt);
      std::string d = fmt("query %.6f closest %.6f", t, bt);
      if (!check(got == (best < 0.10), "gt:lookup-found", d)) continue;
      if (got) {
        Vec &v = ref[bt]; Vec e(17);
        e << bt, v(5), v(6), v(7), v(4), v(1), v(2), v(3), v.tail(9);
        near(s, e, 1e-9, "gt:lookup-state", d);
        count("lookup:found");
      } else count("lookup:none");
      check(gt.size() == ref.size(), "gt:lookup-changed-map");
    }
  std::map<double, Eigen::Matrix<double, 17, 1>> none;
  Eigen::Matrix<double, 17, 1> s;
  check(!ov_core::DatasetReader::get_gt_state(1.0, s, none), "gt:empty-lookup");
  count("rows", n); count("file:groundtruth");
  distinct(fmt("gt:%d:%d:%d", n / 6, (int)(dt * 20), blank));
}

static void simulation(Rng &r) { // rows of equal but arbitrary width
  int n = r.i(1, 30), ncol = r.i(1, 60);
  bool blanks = r.p(0.5), ragged = r.p(0.15) && n > 1;
  std::vector<std::string> lines; std::vector<Vec> ref;
  int bad = ragged ? r.i(1, n - 1) : -1;
  for (int k = 0; k < n; k++) {
    while (r.p(0.15)) lines.push_back(comment(r));
    int nc = ncol + (k == bad ? (ncol > 1 && r.p(0.5) ? -1 : 1) : 0);
    std::vector<std::string> f; Vec v(nc);
    for (int c = 0; c < nc; c++) { f.push_back(num(r, val(r))); v(c) = rd(f.back()); }
    lines.push_back(join(r, f, ' ', blanks)); ref.push_back(v);
  }
  write(r, lines);
  count("file:simulation");
  distinct(fmt("sim:%d:%d:%d:%d", blanks, ragged, ncol / 4, std::min(n, 10)));
  if (ragged) { check(terminated([&] { std::vector<Vec> v; ov_eval::Loader::load_simulation(path, v); }) == 1, "simulation:ragged-accepted"); count("refused"); return; }
  std::vector<Vec> V;
  ov_eval::Loader::load_simulation(path, V);
  if (check((int)V.size() == n, "simulation:rows", fmt("%d of %d", (int)V.size(), n)))
    for (int k = 0; k < n; k++) near(V[k], ref[k], 0, "simulation:values");
  count("rows", n);
}

static void flamegraph(Rng &r) {
  int n = r.i(1, 30), nc = r.i(1, 12);
  bool blanks = r.p(0.5), blankline = r.p(0.3), ragged = r.p(0.1) && n > 1;
  std::vector<std::string> names, lines;
  for (int c = 0; c < nc; c++) names.push_back(fmt("part %d%s", c, r.p(0.5) ? "" : "(x)"));
  std::vector<std::string> h{"# timestamp (sec)"}; h.insert(h.end(), names.begin(), names.end());
  lines.push_back(join(r, h, ',', false));
  int bad = ragged ? r.i(1, n - 1) : -1;
  std::vector<double> t; std::vector<Vec> ref;
  for (int k = 0; k < n; k++) {
    int m = nc + (k == bad ? 1 : 0);
    std::vector<std::string> f; Vec v(m + 1);
    for (int c = 0; c <= m; c++) { f.push_back(num(r, val(r))); v(c) = rd(f.back()); }
    lines.push_back(join(r, f, ',', blanks));
    t.push_back(v(0)); ref.push_back(v.tail(m));
    if (blankline && r.p(0.2)) lines.push_back("");
  }
  if (blankline) lines.push_back("");
  { std::ofstream f(path, std::ios::trunc); for (auto &l : lines) f << l << "\n"; }
  count("file:flamegraph");
  distinct(fmt("flame:%d:%d:%d:%d", blanks, blankline, ragged, nc));
  std::vector<std::string> N; std::vector<double> T; std::vector<Vec> V;
  auto load = [&] { ov_eval::Loader::load_timing_flamegraph(path, N, T, V); };
  if (ragged) { check(terminated(load) == 1, "flamegraph:ragged-accepted"); count("refused"); return; }
  if (blankline && !check(terminated(load) == 0, "flamegraph:blank-line", "a blank line ended the process")) return;
  load();
  check(N == names, "flamegraph:names");
  if (check((int)T.size() == n && V.size() == T.size(), "flamegraph:rows"))
    for (int k = 0; k < n; k++) { near(T[k], t[k], 0, "flamegraph:time"); near(V[k], ref[k], 0, "flamegraph:values"); }
  count("rows", n);
}

static void percent(Rng &r) {
  int n = r.i(1, 30), nodes = r.i(0, 4);
  bool blanks = r.p(0.5), blankline = r.p(0.3);
  std::vector<std::string> lines; std::vector<Vec> ref;
  for (int k = 0; k < n; k++) {
    while (r.p(0.1)) lines.push_back(comment(r));
    if (blankline && r.p(0.2)) lines.push_back(r.p(0.5) ? "" : "12.5 3.5");
    std::vector<std::string> f; Vec v(4 + 3 * nodes);
    bool nothreads = k > 0 && r.p(0.15);
    for (int c = 0; c < v.rows(); c++) { f.push_back(num(r, c == 3 ? (nothreads ? 0 : r.i(1, 20)) : val(r))); v(c) = rd(f.back()); }
    lines.push_back(join(r, f, ' ', blanks));
    if (!nothreads) ref.push_back(v);
  }
  if (blankline) lines.push_back("");
  { std::ofstream f(path, std::ios::trunc); for (auto &l : lines) f << l << "\n"; }
  count("file:percent");
  distinct(fmt("percent:%d:%d:%d:%d", blanks, blankline, nodes, std::min(n, 10)));
  std::vector<double> T; std::vector<V3> S; std::vector<Vec> N;
  auto load = [&] { ov_eval::Loader::load_timing_percent(path, T, S, N); };
  if (blankline && !check(terminated(load) == 0, "percent:incomplete-line", "a blank or incomplete line ended the process")) return;
  load();
  if (check(T.size() == ref.size() && S.size() == T.size() && N.size() == T.size(), "percent:rows", fmt("%d of %d", (int)T.size(), (int)ref.size())))
    for (size_t k = 0; k < ref.size(); k++) {
      near(T[k], ref[k](0), 0, "percent:time"); near(S[k], ref[k].segment(1, 3), 0, "percent:sum"); near(N[k], ref[k].tail(3 * nodes), 0, "percent:nodes");
    }
  count("rows", (long)ref.size());
}

static void unusable(Rng &r) { // missing, empty, only comments
  int kind = r.i(0, 3), which = r.i(0, 6);
  std::string p = path;
  if (kind == 0) p = path + ".does-not-exist";
  else { std::ofstream f(path, std::ios::trunc); if (kind == 2) f << "# only\n# comments\n"; if (kind == 3 && which <= 1) f << "1.0 2.0\n\n3.0,4.0\n"; }
  if (which == 6 && kind != 0) return; // a ground truth file without rows is reported when it is queried
  int rc = terminated([&] {
    std::vector<double> T; std::vector<P7> P; std::vector<M3> a, b; std::vector<Vec> V; std::vector<V3> S; std::vector<std::string> N;
    std::map<double, Eigen::Matrix<double, 17, 1>> gt;
    switch (which) {
    case 0: ov_eval::Loader::load_data(p, T, P, a, b); break;
    case 1: ov_eval::Loader::load_data_csv(p, T, P, a, b); break;
    case 2: ov_eval::Loader::load_simulation(p, V); break;
    case 3: ov_eval::Loader::load_timing_flamegraph(p, N, T, V); break;
    case 4: ov_eval::Loader::load_timing_percent(p, T, S, V); break;
    case 5: ov_core::DatasetReader::load_simulated_trajectory(p, V); break;
    case 6: ov_core::DatasetReader::load_gt_file(p, gt); break;
    }
  });
  check(rc == 1, fmt("unusable:accepted:%d:%d", which, kind), fmt("reader %d, file kind %d, outcome %d", which, kind, rc));
  count("refused");
  distinct(fmt("unusable:%d:%d", which, kind));
}

int main(int argc, char **argv) {
  init(argc, argv);
  ov_core::Printer::setPrintLevel("SILENT");
  path = ctx().a.scratch + "/file.txt";
  run_cases(ctx().a.thorough() ? 60000 : 3200, [](long c, Rng &r) {
    switch (c / 8 % 8) {
    case 0: case 1: trajectory(r); break;
    case 2: csv(r); break;
    case 3: groundtruth(r); break;
    case 4: simulation(r); break;
    case 5: flamegraph(r); break;
    case 6: percent(r); break;
    default: unusable(r);
    }
  });
  return finish();
}
