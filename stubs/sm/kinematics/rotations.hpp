// Stand-in for sm_kinematics.
#ifndef VERIF_SM_ROTATIONS_HPP
#define VERIF_SM_ROTATIONS_HPP
#include <cmath>
#include <Eigen/Core>
#include <Eigen/Dense>
namespace sm { namespace kinematics {
// into (-pi, pi]
inline double angleMod(double x) {
  x = std::remainder(x, 2 * M_PI);
  return x <= -M_PI ? x + 2 * M_PI : x;
}
inline double deg2rad(double x) { return x * (M_PI / 180); }
inline double rad2deg(double x) { return x * (180 / M_PI); }
template <class D> inline Eigen::Matrix3d crossMx(const Eigen::MatrixBase<D>& v) {
  Eigen::Matrix3d m;
  m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0;
  return m;
}
inline Eigen::Matrix3d crossMx(double x, double y, double z) { return crossMx(Eigen::Vector3d(x, y, z)); }
} }
#endif
