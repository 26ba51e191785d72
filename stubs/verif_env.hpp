// The hooks through which a harness answers for the optimiser and the SVD
// solver that the code under test is built on.
#ifndef VERIF_ENV_HPP
#define VERIF_ENV_HPP

#include <cstddef>
#include <vector>

#include <Eigen/Core>
#include <cholmod.h>

namespace aslam { namespace backend {
class DesignVariable; class ErrorTerm; class Optimizer2; struct SolutionReturnValue;
} }
namespace truncated_svd_solver { class TruncatedSvdSolver; }

namespace verif {

struct SvdAnswer {
  std::ptrdiff_t svdRank = -1, svdRankDeficiency = -1, qrRank = -1, qrRankDeficiency = -1;
  double svLog2Sum = 0, svdTolerance = 0, qrTolerance = -1, numFlops = 0;
  size_t peakMemory = 0, memory = 0;
  Eigen::VectorXd singularValues;
  Eigen::MatrixXd matrixU, matrixV, nullSpace, rowSpace, covariance, rowSpaceCovariance;
};

class Env {
 public:
  virtual ~Env() {}
  // true: the answer was provided
  virtual bool onOptimize(aslam::backend::Optimizer2&, aslam::backend::SolutionReturnValue&) { return false; }
  virtual bool onSolve(truncated_svd_solver::TruncatedSvdSolver&, cholmod_sparse* /*A*/, cholmod_dense* /*b*/,
                       std::ptrdiff_t /*j*/, Eigen::VectorXd& /*x*/, SvdAnswer&) { return false; }
  virtual bool onAnalyzeMarginal(truncated_svd_solver::TruncatedSvdSolver&, cholmod_sparse* /*A*/,
                                 std::ptrdiff_t /*j*/, SvdAnswer&) { return false; }
  virtual bool onMarginalize(const cholmod_sparse* /*Jt*/, std::ptrdiff_t /*j*/, SvdAnswer&) { return false; }
  virtual void onClear(truncated_svd_solver::TruncatedSvdSolver&) {}
  virtual void onInitStructure(const std::vector<aslam::backend::DesignVariable*>&,
                               const std::vector<aslam::backend::ErrorTerm*>&) {}
  virtual void onBuildSystem(size_t /*threads*/, bool /*useMEstimator*/) {}
  static Env*& current() { static Env* e = nullptr; return e; }
};

}  // namespace verif
#endif
