// Stand-in for aslam_backend's LinearSystemSolver.
#ifndef VERIF_ASLAM_BACKEND_LINEAR_SYSTEM_SOLVER_HPP
#define VERIF_ASLAM_BACKEND_LINEAR_SYSTEM_SOLVER_HPP

#include <iostream>
#include <string>
#include <vector>

#include <Eigen/Core>
#include <boost/shared_ptr.hpp>

#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/ErrorTerm.hpp>

namespace aslam {
namespace backend {

class LinearSystemSolver {
 public:
  LinearSystemSolver() : _useDiagonalConditioner(false), _JRows(0), _JCols(0) {}
  virtual ~LinearSystemSolver() {}

  void initMatrixStructure(const std::vector<DesignVariable*>& dvs, const std::vector<ErrorTerm*>& errors,
                           bool useDiagonalConditioner) {
    _errorTerms = errors;
    _useDiagonalConditioner = useDiagonalConditioner;
    _JRows = 0; _JCols = 0;
    for (ErrorTerm* e : errors) _JRows += e->dimension();
    for (DesignVariable* d : dvs) _JCols += d->minimalDimensions();
    _e = Eigen::VectorXd::Zero(_JRows);
    initMatrixStructureImplementation(dvs, errors, useDiagonalConditioner);
  }
  // total cost; fills the right-hand side
  double evaluateError(size_t /*nThreads*/, bool /*useMEstimator*/) {
    double J = 0;
    for (ErrorTerm* e : _errorTerms) {
      J += e->evaluateError();
      _e.segment(e->rowBase(), e->dimension()) = -e->vsError();
    }
    return J;
  }
  virtual void buildSystem(size_t nThreads, bool useMEstimator) = 0;
  virtual bool solveSystem(Eigen::VectorXd& outDx) = 0;
  virtual double rhsJtJrhs() = 0;
  virtual std::string name() const { return "linear system solver"; }
  const Eigen::VectorXd& e() const { return _e; }
  Eigen::VectorXd& mutableE() { return _e; }
  size_t JRows() const { return _JRows; }
  size_t JCols() const { return _JCols; }

 protected:
  virtual void initMatrixStructureImplementation(const std::vector<DesignVariable*>& dvs,
                                                 const std::vector<ErrorTerm*>& errors,
                                                 bool useDiagonalConditioner) = 0;
  bool _useDiagonalConditioner;
  size_t _JRows, _JCols;
  Eigen::VectorXd _e;
  std::vector<ErrorTerm*> _errorTerms;
};

}  // namespace backend
}  // namespace aslam
#endif
