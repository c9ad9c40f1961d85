// S07: feature elimination and measurement compression keep information matrix and vector.
#include "vh.h"
#include "update/UpdaterHelper.h"
#include "utils/print.h"
using namespace vh;
using ov_msckf::UpdaterHelper;

static Mat shape(Rng &r, int m, int n, std::string &kind) {
  Mat A = r.mat(m, n, r.logu(1e-3, 1e3));
  int k = r.i(0, 7);
  kind = "dense";
  if (n == 0 || m == 0) return A;
  if (k == 0) { for (int i = 0; i < n; i++) A.col(i) *= r.logu(1e-4, 1e4); kind = "scaled"; }
  if (k == 1) { A.col(r.i(0, n - 1)).setZero(); kind = "zerocol"; }
  if (k == 2 && n > 1) { A.col(0) = A.col(n - 1); kind = "dupcol"; }
  if (k == 3) { for (int i = 0; i < m; i++) if (r.p(0.3)) A.row(i).setZero(); kind = "zerorows"; }
  if (k == 4) { for (int i = 0; i < A.size(); i++) if (r.p(0.7)) A(i) = 0; kind = "sparse"; }
  if (k == 5 && n > 2 && m > 1) { A = r.mat(m, 2) * r.mat(2, n); kind = "lowrank"; }
  if (k == 6) { for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (i > j) A(i, j) = 0; kind = "triangular"; }
  return A;
}
static void same_info(const Mat &H0, const Vec &r0, const Mat &W, const Mat &H1, const Vec &r1, const std::string &key, const std::string &d) {
  // information about the state, scaled per column
  Vec sc = (H0.transpose() * H0).diagonal().cwiseSqrt().cwiseMax(1e-30);
  for (int i = 0; i < sc.size(); i++) if (sc(i) < 1e-12 * sc.maxCoeff()) sc(i) = sc.maxCoeff() > 0 ? sc.maxCoeff() : 1;
  Vec inv = sc.cwiseInverse();
  Mat L0 = inv.asDiagonal() * (H0.transpose() * W * H0) * inv.asDiagonal(), L1 = inv.asDiagonal() * (H1.transpose() * H1) * inv.asDiagonal();
  near(L1, L0, 1e-9, key + ":information", d);
  double rs = std::max(r0.size() ? r0.norm() : 0.0, 1e-300);
  Vec b0 = inv.asDiagonal() * (H0.transpose() * W * r0) / rs, b1 = inv.asDiagonal() * (H1.transpose() * r1) / rs;
  near(b1, b0, 1e-9, key + ":vector", d);
}
int main(int argc, char **argv) {
  vh::init(argc, argv);
  ov_core::Printer::setPrintLevel("SILENT");
  run_cases(ctx().a.thorough() ? 400000 : 24000, [&](long c, Rng &r) {
    if (r.p(0.5)) {
      // feature elimination
      int k = r.p(0.6) ? 3 : r.i(1, 6), m = r.p(0.1) ? k : k + r.i(0, r.p(0.1) ? 80 : 20), n = r.p(0.1) ? r.i(1, 3) : r.i(1, 60);
      std::string kx, kf = "dense";
      Mat Hx = shape(r, m, n, kx), Hf;
      for (int t = 0;; t++) {
        Hf = r.mat(m, k, 1);
        int z = r.i(0, 4);
        kf = "dense";
        if (z == 1) { for (int i = 0; i < m; i++) if (r.p(0.3)) Hf.row(i).setZero(); kf = "zerorows"; }
        if (z == 2) { for (int i = 0; i < Hf.size(); i++) if (r.p(0.4)) Hf(i) = 0; kf = "sparse"; }
        if (z == 3) { for (int i = 0; i < m; i++) for (int j = 0; j < k; j++) if (i < m - 1 - j) Hf(i, j) = 0; kf = "bottom"; }
        Eigen::JacobiSVD<Mat> s(Hf);
        if (s.singularValues()(k - 1) > 1e-2 * s.singularValues()(0)) break;
      }
      Hf *= r.logu(1e-3, 1e3);
      Vec res = r.vec(m, r.logu(1e-3, 100));
      Mat Q = Eigen::HouseholderQR<Mat>(Hf).householderQ() * Mat::Identity(m, k);
      Mat W = Mat::Identity(m, m) - Q * Q.transpose();
      Mat a = Hf, b = Hx;
      Vec d = res;
      std::string desc = fmt("Hf %dx%d %s, Hx %dx%d %s", m, k, kf.c_str(), m, n, kx.c_str());
      UpdaterHelper::nullspace_project_inplace(a, b, d);
      count("nullspace");
      distinct(desc);
      if (c < 40) sample(desc);
      check(b.rows() == m - k && b.cols() == n && d.rows() == m - k, "nullspace:size", desc);
      if (b.rows() == d.rows() && b.cols() == n) {
        same_info(Hx, res, W, b, d, "nullspace", desc);
        // white noise stays white and the residual energy is what is left outside the feature's column space
        near(d.squaredNorm(), res.dot(W * res), 1e-9 * res.squaredNorm(), "nullspace:energy", desc);
      }
    } else {
      int m = r.p(0.05) ? 1 : r.i(1, r.p(0.05) ? 220 : 60), n = r.p(0.05) ? 1 : r.i(1, 50);
      if (r.p(0.1)) m = n + r.i(-1, 1);
      if (m < 1) m = 1;
      std::string kx;
      Mat Hx = shape(r, m, n, kx), b = Hx;
      Vec res = r.vec(m, r.logu(1e-3, 100)), d = res;
      std::string desc = fmt("compress %dx%d %s", m, n, kx.c_str());
      UpdaterHelper::measurement_compress_inplace(b, d);
      count(m > n ? "compress-tall" : m == n ? "compress-square" : "compress-fat");
      distinct(desc);
      check(b.rows() <= std::max(n, 1) && b.rows() <= m && b.cols() == n && d.rows() == b.rows() && d.cols() == 1, "compress:size", desc + fmt(" -> %dx%d", (int)b.rows(), (int)b.cols()));
      if (b.cols() == n && d.rows() == b.rows()) same_info(Hx, res, Mat::Identity(m, m), b, d, "compress", desc);
    }
  });
  return finish();
}
