// S12: camera models against the published formulas.
#include "vj.h"
using namespace vj;

static V2 ocv(const cv::Point2f &p) { return V2(p.x, p.y); }
int main(int argc, char **argv) {
  vh::init(argc, argv);
  ov_core::Printer::setPrintLevel("SILENT");
  run_cases(ctx().a.thorough() ? 200000 : 8000, [&](long c, Rng &r) {
    bool fish = r.p(0.5);
    int w = r.i(200, 2000), h = r.i(200, 1500);
    std::shared_ptr<ov_core::CamBase> cam;
    if (fish) cam = std::make_shared<ov_core::CamEqui>(w, h);
    else cam = std::make_shared<ov_core::CamRadtan>(w, h);
    check(cam->w() == w && cam->h() == h, "size");
    Vec last;
    int rounds = r.i(1, 3); // changed intrinsics must take effect everywhere
    for (int k = 0; k < rounds; k++) {
      Vec v(8);
      double f = r.u(200, 900);
      v << f, f * r.u(0.9, 1.1), w * r.u(0.4, 0.6), h * r.u(0.4, 0.6), 0, 0, 0, 0;
      int lens = r.i(0, 3);
      if (lens > 0) { if (fish) v.tail(4) << r.u(-0.05, 0.05), r.u(-0.02, 0.02), r.u(-0.01, 0.01), r.u(-0.004, 0.004); else v.tail(4) << r.u(-0.32, 0.1), r.u(-0.05, 0.1), r.u(-2e-3, 2e-3), r.u(-2e-3, 2e-3); }
      if (lens == 2) v(4 + r.i(0, 3)) = 0;
      cam->set_value(v);
      near(cam->get_value(), v, 0, "get_value");
      cv::Matx33d K = cam->get_K();
      cv::Vec4d D = cam->get_D();
      check(K(0, 0) == v(0) && K(1, 1) == v(1) && K(0, 2) == v(2) && K(1, 2) == v(3) && K(2, 2) == 1 && K(0, 1) == 0 && K(1, 0) == 0 && K(2, 0) == 0 && K(2, 1) == 0, "get_K");
      for (int j = 0; j < 4; j++) check(D(j) == v(4 + j), "get_D");
      for (int t = 0; t < 6; t++) {
        int reg = r.i(0, 5);
        double maxr = fish ? 3.0 : 1.0, rad = reg == 0 ? 0 : reg == 1 ? r.logu(1e-12, 1e-6) : reg == 2 ? r.logu(1e-6, 1e-2) : r.u(0, maxr), an = r.u(0, 2 * M_PI);
        V2 n(rad * std::cos(an), rad * std::sin(an));
        if (r.p(0.05)) n(r.i(0, 1)) = 0;
        std::string d = fmt("%s ray (%.9g,%.9g) intrinsics %s", fish ? "fisheye" : "radtan", n(0), n(1), str(v).c_str());
        std::string m = fish ? ":fish" : ":radtan";
        distinct(fmt("%d lens%d reg%d oct%d", fish, lens, reg, (int)(an * 4 / M_PI)));
        count(std::string(fish ? "fish" : "radtan") + (reg == 0 ? ":centre" : reg == 1 ? ":nearcentre" : ":field"));
        // projection, all variants
        Eigen::Vector2f nf = n.cast<float>();
        V2 nd = nf.cast<double>();
        V2 e = distort(v, fish, nd);
        double tp = 1e-6 * (e.cwiseAbs().maxCoeff() + 100);
        near(V2(cam->distort_f(nf).cast<double>()), e, tp, "distort_f" + m, d);
        near(V2(cam->distort_d(n)), distort(v, fish, n), tp, "distort_d" + m, d);
        near(ocv(cam->distort_cv(cv::Point2f(nf(0), nf(1)))), e, tp, "distort_cv" + m, d);
        near(V2(cam->distort_d(nd)), cam->distort_f(nf).cast<double>(), tp, "variants-distort" + m, d);
        // undo it: the library iterates, so the tolerance follows the contraction of that iteration
        double tol = 2e-5 * (1 + n.squaredNorm()) + 1e-6 * e.cwiseAbs().maxCoeff() / f * 2;
        bool invertible = true;
        if (!fish) {
          double r2 = n.squaredNorm(), g = 1 + v(4) * r2 + v(5) * r2 * r2, q = std::abs((2 * v(4) * r2 + 4 * v(5) * r2 * r2) / g) + 8 * std::sqrt(r2) * (std::abs(v(6)) + std::abs(v(7)));
          invertible = q < 0.6 && g > 0.3;
          tol += 3 * std::pow(q, 5) * n.norm();
          for (double s = 0.1; s < 1; s += 0.1) { double z = r2 * s * s; if (1 + 3 * v(4) * z + 5 * v(5) * z * z < 0.2) invertible = false; }
        } else {
          double th = std::atan(n.norm()), t2 = th * th;
          for (double s = 0.1; s <= 1.01; s += 0.1) { double z = t2 * s * s; if (1 + 3 * v(4) * z + 5 * v(5) * z * z + 7 * v(6) * z * z * z + 9 * v(7) * z * z * z * z < 0.4) invertible = false; }
          double td = th * (1 + t2 * (v(4) + t2 * (v(5) + t2 * (v(6) + t2 * v(7)))));
          if (td > 1.5) invertible = false;
        }
        if (invertible) {
          count("inverted");
          Eigen::Vector2f ef = e.cast<float>();
          V2 u = cam->undistort_f(ef).cast<double>();
          near(u, nd, tol, "undistort_f" + m, d);
          near(V2(cam->undistort_d(e)), u, 1e-6 * (1 + u.norm()), "undistort_d" + m, d);
          near(ocv(cam->undistort_cv(cv::Point2f(ef(0), ef(1)))), u, 1e-6 * (1 + u.norm()), "undistort_cv" + m, d);
        }
        // derivatives
        Mat Jn, Jz;
        cam->compute_distort_jacobian(n, Jn, Jz);
        double hs = 1e-4 * std::max(1.0, n.norm());
        Mat En = numjac4([&](const Vec &x) -> Vec { return distort(v, fish, n + V2(x)); }, 2, hs), Ez = numjac4([&](const Vec &x) -> Vec { return distort(v + x, fish, n); }, 8, 1e-3);
        near(Jn, En, 1e-6 * f, "jacobian-ray" + m + (reg <= 1 ? ":centre" : ""), d);
        near(Jz, Ez, 1e-7 * f * (1 + std::pow(n.norm(), 5)), "jacobian-intrinsics" + m, d);
        if (c < 8 && t == 0) sample(d);
      }
    }
  });
  return finish();
}
