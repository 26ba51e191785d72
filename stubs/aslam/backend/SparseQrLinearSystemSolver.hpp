// Stand-in for aslam_backend's sparse QR solver: knows the size of the system,
// and cannot solve it.
#ifndef VERIF_ASLAM_BACKEND_SQR_HPP
#define VERIF_ASLAM_BACKEND_SQR_HPP
#include <stdexcept>
#include <aslam/backend/CompressedColumnMatrix.hpp>
#include <aslam/backend/LinearSystemSolver.hpp>
#include <aslam/backend/SparseQRLinearSolverOptions.h>
namespace aslam { namespace backend {
class SparseQrLinearSystemSolver : public LinearSystemSolver {
 public:
  typedef SparseQRLinearSolverOptions Options;
  void setOptions(const Options& o) { _options = o; }
  const Options& getOptions() const { return _options; }
  const CompressedColumnMatrix<std::ptrdiff_t>& getJacobianTranspose() const { return _Jt; }
  void buildSystem(size_t, bool) override { throw std::runtime_error("SparseQrLinearSystemSolver: not modelled"); }
  bool solveSystem(Eigen::VectorXd&) override { throw std::runtime_error("SparseQrLinearSystemSolver: not modelled"); }
  double rhsJtJrhs() override { return 0; }
 protected:
  void initMatrixStructureImplementation(const std::vector<DesignVariable*>&, const std::vector<ErrorTerm*>&, bool) override { _Jt.assign(Eigen::MatrixXd::Zero(JCols(), 0)); }
 private:
  Options _options;
  CompressedColumnMatrix<std::ptrdiff_t> _Jt;
};
} }
#endif
