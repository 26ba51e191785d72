// Stand-in for aslam_backend's ErrorTerm / ErrorTermFs.
#ifndef VERIF_ASLAM_BACKEND_ERROR_TERM_HPP
#define VERIF_ASLAM_BACKEND_ERROR_TERM_HPP

#include <stdexcept>
#include <vector>

#include <Eigen/Core>
#include <Eigen/Dense>
#include <boost/shared_ptr.hpp>

#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/JacobianContainer.hpp>
#include <aslam/backend/MEstimatorPolicies.hpp>

namespace aslam {
namespace backend {

class ErrorTerm {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  explicit ErrorTerm(size_t dim = 0) : _dimension(dim), _rowBase(0), _squaredError(0.0) {}
  virtual ~ErrorTerm() {}

  double evaluateError() { return _squaredError = evaluateErrorImplementation(); }
  void evaluateJacobians(JacobianContainer& J) { evaluateJacobiansImplementation(J); }
  size_t dimension() const { return _dimension; }
  size_t rowBase() const { return _rowBase; }
  void setRowBase(size_t b) { _rowBase = b; }
  size_t numDesignVariables() const { return _designVariables.size(); }
  DesignVariable* designVariable(size_t i) { return _designVariables.at(i); }
  const DesignVariable* designVariable(size_t i) const { return _designVariables.at(i); }
  const std::vector<DesignVariable*>& designVariables() const { return _designVariables; }
  void getDesignVariables(std::set<DesignVariable*>& s) const { s.insert(_designVariables.begin(), _designVariables.end()); }
  double getRawSquaredError() const { return _squaredError; }
  double getSquaredError() const { return _squaredError; }
  double getWeightedSquaredError() const { return _squaredError; }
  void setMEstimatorPolicy(const boost::shared_ptr<MEstimator>& p) { _mestimator = p; }
  const MEstimator* verifPolicy() const { return _mestimator.get(); }
  Eigen::VectorXd vsError() const { return vsErrorImplementation(); }
  Eigen::MatrixXd vsInvR() const { return vsInvRImplementation(); }

 protected:
  virtual double evaluateErrorImplementation() = 0;
  virtual void evaluateJacobiansImplementation(JacobianContainer&) = 0;
  virtual Eigen::VectorXd vsErrorImplementation() const { return Eigen::VectorXd::Zero(_dimension); }
  virtual Eigen::MatrixXd vsInvRImplementation() const { return Eigen::MatrixXd::Identity(_dimension, _dimension); }
  void setDesignVariables(const std::vector<DesignVariable*>& d) { _designVariables = d; }
  void setDesignVariables(DesignVariable* a) { _designVariables = {a}; }
  void setDesignVariables(DesignVariable* a, DesignVariable* b) { _designVariables = {a, b}; }
  void setDesignVariables(DesignVariable* a, DesignVariable* b, DesignVariable* c) { _designVariables = {a, b, c}; }
  void setDesignVariables(DesignVariable* a, DesignVariable* b, DesignVariable* c, DesignVariable* d) { _designVariables = {a, b, c, d}; }
  template <class It> void setDesignVariablesIterator(It b, It e) { _designVariables.assign(b, e); }
  void setDimension(size_t d) { _dimension = d; }

 private:
  size_t _dimension, _rowBase;
  double _squaredError;
  std::vector<DesignVariable*> _designVariables;
  boost::shared_ptr<MEstimator> _mestimator;
};

template <int D>
class ErrorTermFs : public ErrorTerm {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  enum { Dimension = D };
  typedef Eigen::Matrix<double, D, 1> error_t;
  typedef Eigen::Matrix<double, D, D> inverse_covariance_t;
  ErrorTermFs() : ErrorTerm(D), _error(error_t::Zero()), _invR(inverse_covariance_t::Identity()) {}
  virtual ~ErrorTermFs() {}
  const error_t& error() const { return _error; }
  void setError(const error_t& e) { _error = e; }
  template <class M> void setInvR(const Eigen::MatrixBase<M>& invR) { _invR = invR; }
  template <class M> void setSqrtInvR(const Eigen::MatrixBase<M>& s) { _invR = s * s.transpose(); }
  const inverse_covariance_t& invR() const { return _invR; }
  double evaluateChiSquaredError() const { return _error.dot(_invR * _error); }

 protected:
  Eigen::VectorXd vsErrorImplementation() const { return _error; }
  Eigen::MatrixXd vsInvRImplementation() const { return _invR; }

 private:
  error_t _error;
  inverse_covariance_t _invR;
};

}  // namespace backend
}  // namespace aslam
#endif
