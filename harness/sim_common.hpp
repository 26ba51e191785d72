// Reference for the simulators: nothing of sm or of the repository.
#ifndef VERIF_SIM_COMMON_HPP
#define VERIF_SIM_COMMON_HPP
#include <cmath>
#include <Eigen/Core>
#include <Eigen/Geometry>

namespace {
struct Pose { Eigen::Matrix3d C; Eigen::Vector3d t; };
Eigen::Matrix3d turn(const Eigen::Vector3d& a) { const double n = a.norm(); return n == 0 ? Eigen::Matrix3d(Eigen::Matrix3d::Identity()) : Eigen::AngleAxisd(n, a / n).toRotationMatrix(); }
Eigen::Matrix3d euler(const Eigen::Vector3d& ypr) {
  return (Eigen::AngleAxisd(ypr(0), Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(ypr(1), Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(ypr(2), Eigen::Vector3d::UnitX())).toRotationMatrix();
}
bool near(double a, double b, double tol = 1e-7) { return std::fabs(a - b) <= tol * (1 + std::fabs(b)); }
template <class A, class B> bool near(const Eigen::MatrixBase<A>& a, const Eigen::MatrixBase<B>& b, double tol = 1e-7) { return (a - b).cwiseAbs().maxCoeff() <= tol * (1 + b.cwiseAbs().maxCoeff()); }

// a vehicle that follows a sine wave, heading along it
struct Sine {
  double A, f, phi, x = 0, y = 0;
  bool first = true;
  Sine(double A, double f) : A(A), f(f), phi(0) {}
  void step(double t, double dt, double& v, double& om) {
    const double w = 2 * M_PI * f, p = std::atan(w * A * std::cos(w * t)), yy = A * std::sin(w * t);
    om = first ? 0 : (p - phi) / dt;
    v = ((t - x) * std::cos(p) + (yy - y) * std::sin(p)) / dt;
    first = false; phi = p; x = t; y = yy;
  }
};
}  // namespace
#endif
