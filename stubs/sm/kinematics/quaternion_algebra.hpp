#ifndef VERIF_SM_QUATERNION_HPP
#define VERIF_SM_QUATERNION_HPP
#include <sm/kinematics/rotations.hpp>
namespace sm { namespace kinematics {
// [x y z w]; C(q) = 1 - 2w[v]x + 2[v]x[v]x, C(qplus(a, b)) = C(a) C(b)
inline Eigen::Matrix3d quat2r(const Eigen::Vector4d& q) {
  const Eigen::Matrix3d X = crossMx(q.head<3>());
  return Eigen::Matrix3d::Identity() - 2 * q(3) * X + 2 * X * X;
}
inline Eigen::Vector4d quatInv(const Eigen::Vector4d& q) { return Eigen::Vector4d(-q(0), -q(1), -q(2), q(3)); }
inline Eigen::Vector4d qplus(const Eigen::Vector4d& a, const Eigen::Vector4d& b) {
  Eigen::Vector4d r;
  const Eigen::Vector3d x = a.head<3>(), y = b.head<3>();
  r.head<3>() = a(3) * y + b(3) * x - x.cross(y);
  r(3) = a(3) * b(3) - x.dot(y);
  return r;
}
inline Eigen::Vector4d r2quat(const Eigen::Matrix3d& C) {
  // Eigen's quaternion is the active one
  const Eigen::Quaterniond e(C);
  return Eigen::Vector4d(-e.x(), -e.y(), -e.z(), e.w());
}
inline Eigen::Vector3d quatRotate(const Eigen::Vector4d& q, const Eigen::Vector3d& v) { return quat2r(q) * v; }
// the rotation C(q) = exp(-[phi]x)
inline Eigen::Vector4d qexp(const Eigen::Vector3d& phi) {
  const double n = phi.norm();
  Eigen::Vector4d q;
  q.head<3>() = phi * (n < 1e-12 ? 0.5 : std::sin(n / 2) / n);
  q(3) = std::cos(n / 2);
  return q;
}
inline Eigen::Vector4d axisAngle2quat(const Eigen::Vector3d& phi) { return qexp(phi); }
} }
#endif
