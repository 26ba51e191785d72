// Stand-in for the truncated SVD solver.  With no environment installed it is
// a small dense implementation of the same computation.
#ifndef VERIF_TSVD_SOLVER_H
#define VERIF_TSVD_SOLVER_H

#include <cmath>
#include <limits>
#include <stdexcept>

#include <Eigen/Core>
#include <cholmod.h>

#include <truncated-svd-solver/tsvd-solver-options.h>
#include <verif_env.hpp>

namespace truncated_svd_solver {

class TruncatedSvdSolver {
 public:
  typedef TruncatedSvdSolverOptions Options;
  TruncatedSvdSolver(const Options& options = Options()) : tsvd_options_(options), margStartIndex_(0) { cholmod_l_start(&cholmod_); cholmod_.print = 0; }
  TruncatedSvdSolver(const TruncatedSvdSolver&) = delete;
  TruncatedSvdSolver& operator=(const TruncatedSvdSolver&) = delete;
  virtual ~TruncatedSvdSolver() { cholmod_l_finish(&cholmod_); }

  void clear() { if (auto* e = ::verif::Env::current()) e->onClear(*this); ans_ = ::verif::SvdAnswer(); }
  void solve(cholmod_sparse* A, cholmod_dense* b, std::ptrdiff_t j, Eigen::VectorXd& x) {
    checkSize(A, j);
    if ((size_t)b->nrow != (size_t)A->nrow) throw std::runtime_error("TruncatedSvdSolver::solve: inconsistent sizes");
    auto* e = ::verif::Env::current();
    if (e && e->onSolve(*this, A, b, j, x, ans_)) return;
    Eigen::VectorXd bb = Eigen::Map<Eigen::VectorXd>(static_cast<double*>(b->x), b->nrow);
    dense(A, j, tsvd_options_.columnScaling, &bb, &x);
  }
  void analyzeMarginal(cholmod_sparse* A, std::ptrdiff_t j) {
    checkSize(A, j);
    auto* e = ::verif::Env::current();
    if (e && e->onAnalyzeMarginal(*this, A, j, ans_)) return;
    dense(A, j, false, nullptr, nullptr);
  }

  const Options& getOptions() const { return tsvd_options_; }
  Options& getOptions() { return tsvd_options_; }
  std::ptrdiff_t getMargStartIndex() const { return margStartIndex_; }
  void setMargStartIndex(std::ptrdiff_t i) { margStartIndex_ = i; }
  std::ptrdiff_t getSVDRank() const { return ans_.svdRank; }
  std::ptrdiff_t getSVDRankDeficiency() const { return ans_.svdRankDeficiency; }
  std::ptrdiff_t getQRRank() const { return ans_.qrRank; }
  std::ptrdiff_t getQRRankDeficiency() const { return ans_.qrRankDeficiency; }
  double getSVDTolerance() const { return ans_.svdTolerance; }
  double getQRTolerance() const { return ans_.qrTolerance; }
  const Eigen::VectorXd& getSingularValues() const { return ans_.singularValues; }
  const Eigen::MatrixXd& getMatrixU() const { return ans_.matrixU; }
  const Eigen::MatrixXd& getMatrixV() const { return ans_.matrixV; }
  Eigen::MatrixXd getNullSpace() const { return ans_.nullSpace; }
  Eigen::MatrixXd getRowSpace() const { return ans_.rowSpace; }
  Eigen::MatrixXd getCovariance() const { return ans_.covariance; }
  Eigen::MatrixXd getRowSpaceCovariance() const { return ans_.rowSpaceCovariance; }
  double getSingularValuesLog2Sum() const { return ans_.svLog2Sum; }
  size_t getPeakMemoryUsage() const { return ans_.peakMemory; }
  size_t getMemoryUsage() const { return ans_.memory; }
  double getNumFlops() const { return ans_.numFlops; }
  double getLinearSolverTime() const { return 0; }
  double getMarginalAnalysisTime() const { return 0; }
  double getSymbolicFactorizationTime() const { return 0; }
  double getNumericFactorizationTime() const { return 0; }

  static Eigen::MatrixXd toDense(const cholmod_sparse* A) {
    Eigen::MatrixXd M = Eigen::MatrixXd::Zero(A->nrow, A->ncol);
    const SuiteSparse_long* p = static_cast<const SuiteSparse_long*>(A->p);
    const SuiteSparse_long* i = static_cast<const SuiteSparse_long*>(A->i);
    const double* x = static_cast<const double*>(A->x);
    for (size_t c = 0; c < A->ncol; ++c)
      for (SuiteSparse_long k = p[c]; k < p[c + 1]; ++k) M(i[k], c) = x[k];
    return M;
  }

 protected:
  static void checkSize(const cholmod_sparse* A, std::ptrdiff_t j) {
    if (!A) throw std::runtime_error("TruncatedSvdSolver: no matrix");
    if (j < 0 || j > (std::ptrdiff_t)A->ncol) throw std::runtime_error("TruncatedSvdSolver: split index out of range");
  }
  void dense(const cholmod_sparse* A, std::ptrdiff_t j, bool scale, const Eigen::VectorXd* b, Eigen::VectorXd* x);
  Options tsvd_options_;
  cholmod_common cholmod_;
  std::ptrdiff_t margStartIndex_;
  ::verif::SvdAnswer ans_;
};

}  // namespace truncated_svd_solver
#endif
