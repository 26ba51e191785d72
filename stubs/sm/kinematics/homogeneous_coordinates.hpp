#ifndef VERIF_SM_HOMOGENEOUS_HPP
#define VERIF_SM_HOMOGENEOUS_HPP
#include <Eigen/Core>
namespace sm { namespace kinematics {
inline Eigen::Vector4d toHomogeneous(const Eigen::Vector3d& v) { return Eigen::Vector4d(v(0), v(1), v(2), 1); }
inline Eigen::Vector3d fromHomogeneous(const Eigen::Vector4d& v) { return v.head<3>() / v(3); }
} }
#endif
