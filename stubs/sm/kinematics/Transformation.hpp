#ifndef VERIF_SM_TRANSFORMATION_HPP
#define VERIF_SM_TRANSFORMATION_HPP
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/transformations.hpp>
namespace sm { namespace kinematics {
class Transformation {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  Transformation() : q_(0, 0, 0, 1), t_(Eigen::Vector3d::Zero()) {}
  Transformation(const Eigen::Matrix4d& T) : q_(r2quat(T.topLeftCorner<3, 3>())), t_(T.topRightCorner<3, 1>()) {}
  Transformation(const Eigen::Vector4d& q, const Eigen::Vector3d& t) : q_(q), t_(t) {}
  virtual ~Transformation() {}
  Eigen::Matrix4d T() const { return rt2Transform(C(), t_); }
  Eigen::Matrix3d C() const { return quat2r(q_); }
  const Eigen::Vector3d& t() const { return t_; }
  const Eigen::Vector4d& q() const { return q_; }
  Transformation inverse() const { return Transformation(quatInv(q_), -(C().transpose() * t_)); }
  Transformation operator*(const Transformation& o) const { return Transformation(qplus(q_, o.q_), C() * o.t_ + t_); }
  Eigen::Vector3d operator*(const Eigen::Vector3d& p) const { return C() * p + t_; }
  Eigen::Vector4d operator*(const Eigen::Vector4d& p) const { return T() * p; }
 private:
  Eigen::Vector4d q_;
  Eigen::Vector3d t_;
};
} }
#endif
