// Stand-in for sm_kinematics: the rigid motion that takes p1 to p0, in the
// sense of least squares.
#ifndef VERIF_SM_THREE_POINT_METHODS_HPP
#define VERIF_SM_THREE_POINT_METHODS_HPP
#include <stdexcept>
#include <Eigen/Core>
#include <Eigen/Dense>
namespace sm { namespace kinematics {
inline Eigen::Matrix4d threePointSvd(const Eigen::MatrixXd& p0, const Eigen::MatrixXd& p1) {
  if (p0.rows() != 3 || p1.rows() != 3 || p0.cols() != p1.cols() || p0.cols() == 0) throw std::runtime_error("threePointSvd: wrong sizes");
  const Eigen::Vector3d m0 = p0.rowwise().mean(), m1 = p1.rowwise().mean();
  const Eigen::Matrix3d H = (p1.colwise() - m1) * (p0.colwise() - m0).transpose();
  const Eigen::JacobiSVD<Eigen::Matrix3d> svd(H, Eigen::ComputeFullU | Eigen::ComputeFullV);
  Eigen::Matrix3d D = Eigen::Matrix3d::Identity();
  D(2, 2) = (svd.matrixV() * svd.matrixU().transpose()).determinant() < 0 ? -1 : 1;
  const Eigen::Matrix3d R = svd.matrixV() * D * svd.matrixU().transpose();
  Eigen::Matrix4d T = Eigen::Matrix4d::Identity();
  T.topLeftCorner<3, 3>() = R;
  T.topRightCorner<3, 1>() = m0 - R * m1;
  return T;
}
} }
#endif
