// Stand-in for aslam_backend's DesignVariable (the library is not available
// here): the same interface, kept as plain as possible.
#ifndef VERIF_ASLAM_BACKEND_DESIGN_VARIABLE_HPP
#define VERIF_ASLAM_BACKEND_DESIGN_VARIABLE_HPP

#include <set>
#include <stdexcept>
#include <vector>

#include <Eigen/Core>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>

namespace aslam {
namespace backend {

class DesignVariable {
 public:
  typedef std::set<DesignVariable*> set_t;
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  DesignVariable() : _blockIndex(-1), _columnBase(-1), _isMarginalized(false), _isActive(false), _scaling(1.0) {}
  virtual ~DesignVariable() {}

  int minimalDimensions() const { return minimalDimensionsImplementation(); }
  void update(const double* dp, int size) {
    if (size != minimalDimensions()) throw std::runtime_error("DesignVariable::update: wrong size");
    if (_scaling == 1.0) { updateImplementation(dp, size); return; }
    Eigen::VectorXd s = Eigen::Map<const Eigen::VectorXd>(dp, size) * _scaling;
    updateImplementation(s.data(), size);
  }
  void revertUpdate() { revertUpdateImplementation(); }

  int blockIndex() const { return _blockIndex; }
  void setBlockIndex(int i) { _blockIndex = i; }
  int columnBase() const { return _columnBase; }
  void setColumnBase(int c) { _columnBase = c; }
  bool isMarginalized() const { return _isMarginalized; }
  void setMarginalized(bool m) { _isMarginalized = m; }
  bool isActive() const { return _isActive; }
  void setActive(bool a) { _isActive = a; }
  double scaling() const { return _scaling; }
  void setScaling(double s) { _scaling = s; }

  void getParameters(Eigen::MatrixXd& value) const { getParametersImplementation(value); }
  void setParameters(const Eigen::MatrixXd& value) { setParametersImplementation(value); }
  void minimalDifference(const Eigen::MatrixXd& xHat, Eigen::VectorXd& out) const { minimalDifferenceImplementation(xHat, out); }
  void minimalDifferenceAndJacobian(const Eigen::MatrixXd& xHat, Eigen::VectorXd& out, Eigen::MatrixXd& J) const {
    minimalDifferenceAndJacobianImplementation(xHat, out, J);
  }

 protected:
  virtual void revertUpdateImplementation() = 0;
  virtual void updateImplementation(const double* dp, int size) = 0;
  virtual int minimalDimensionsImplementation() const = 0;
  virtual void getParametersImplementation(Eigen::MatrixXd& value) const = 0;
  virtual void setParametersImplementation(const Eigen::MatrixXd& value) = 0;
  virtual void minimalDifferenceImplementation(const Eigen::MatrixXd&, Eigen::VectorXd&) const {
    throw std::runtime_error("minimalDifference not implemented");
  }
  virtual void minimalDifferenceAndJacobianImplementation(const Eigen::MatrixXd&, Eigen::VectorXd&, Eigen::MatrixXd&) const {
    throw std::runtime_error("minimalDifferenceAndJacobian not implemented");
  }

 private:
  int _blockIndex, _columnBase;
  bool _isMarginalized, _isActive;
  double _scaling;
};

}  // namespace backend
}  // namespace aslam
#endif
