// Stand-in for aslam_backend's Jacobian builder.
#ifndef VERIF_ASLAM_BACKEND_CCJTB_HPP
#define VERIF_ASLAM_BACKEND_CCJTB_HPP

#include <vector>

#include <aslam/backend/CompressedColumnMatrix.hpp>
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/ErrorTerm.hpp>
#include <verif_env.hpp>

namespace aslam {
namespace backend {

template <typename I>
class CompressedColumnJacobianTransposeBuilder {
 public:
  void initMatrixStructure(const std::vector<DesignVariable*>& dvs, const std::vector<ErrorTerm*>& errors) {
    if (auto* e = ::verif::Env::current()) e->onInitStructure(dvs, errors);
    _dvs = dvs; _errors = errors;
    size_t rows = 0, cols = 0;
    for (ErrorTerm* e : errors) rows += e->dimension();
    for (DesignVariable* d : dvs) cols += d->minimalDimensions();
    _Jt.assign(Eigen::MatrixXd::Zero(cols, rows));
  }
  void buildSystem(size_t numThreads, bool useMEstimator) {
    if (auto* e = ::verif::Env::current()) e->onBuildSystem(numThreads, useMEstimator);
    Eigen::MatrixXd M = Eigen::MatrixXd::Zero(_Jt.rows(), _Jt.cols());
    for (ErrorTerm* e : _errors) {
      JacobianContainer J((int)e->dimension());
      e->evaluateJacobians(J);
      for (auto& kv : J.jacobians()) {
        DesignVariable* d = kv.first;
        const int c = d->columnBase(), r = (int)e->rowBase();
        if (c < 0 || c + d->minimalDimensions() > M.rows() || r + (int)e->dimension() > M.cols())
          throw std::runtime_error("Jacobian builder: design variable or error term placed outside the system");
        M.block(c, r, d->minimalDimensions(), e->dimension()) += kv.second.transpose();
      }
    }
    _Jt.assign(M);
  }
  const CompressedColumnMatrix<I>& J_transpose() const { return _Jt; }
  CompressedColumnMatrix<I>& J_transpose() { return _Jt; }
  const std::vector<DesignVariable*>& designVariables() const { return _dvs; }
  const std::vector<ErrorTerm*>& errorTerms() const { return _errors; }

 private:
  std::vector<DesignVariable*> _dvs;
  std::vector<ErrorTerm*> _errors;
  CompressedColumnMatrix<I> _Jt;
};

}  // namespace backend
}  // namespace aslam
#endif
