#ifndef VERIF_SM_YPR_HPP
#define VERIF_SM_YPR_HPP
#include <sm/kinematics/rotations.hpp>
namespace sm { namespace kinematics {
// C = Rz(yaw) Ry(pitch) Rx(roll); the rates enter as C' = (1 - (S w)x) C
class EulerAnglesYawPitchRoll {
 public:
  virtual ~EulerAnglesYawPitchRoll() {}
  virtual Eigen::Matrix3d parametersToRotationMatrix(const Eigen::Vector3d& p, Eigen::Matrix3d* S = nullptr) const {
    const double cz = std::cos(p(0)), sz = std::sin(p(0)), cy = std::cos(p(1)), sy = std::sin(p(1)), cx = std::cos(p(2)), sx = std::sin(p(2));
    Eigen::Matrix3d C;
    C << cz * cy, -sz * cx + cz * sy * sx, sz * sx + cz * sy * cx,
         sz * cy, cz * cx + sz * sy * sx, -cz * sx + sz * sy * cx,
         -sy, cy * sx, cy * cx;
    if (S) *S = parametersToSMatrix(p);
    return C;
  }
  virtual Eigen::Vector3d rotationMatrixToParameters(const Eigen::Matrix3d& C) const {
    return Eigen::Vector3d(std::atan2(C(1, 0), C(0, 0)), std::atan2(-C(2, 0), std::hypot(C(2, 1), C(2, 2))), std::atan2(C(2, 1), C(2, 2)));
  }
  virtual Eigen::Matrix3d parametersToSMatrix(const Eigen::Vector3d& p) const {
    const double cz = std::cos(p(0)), sz = std::sin(p(0)), cy = std::cos(p(1)), sy = std::sin(p(1));
    Eigen::Matrix3d S;
    S << 0, sz, -cz * cy, 0, -cz, -sz * cy, -1, 0, sy;
    return S;
  }
};
} }
#endif
