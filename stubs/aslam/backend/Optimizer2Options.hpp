#ifndef VERIF_ASLAM_BACKEND_O2O_HPP
#define VERIF_ASLAM_BACKEND_O2O_HPP
#include <cstddef>
#include <string>
#include <boost/shared_ptr.hpp>
namespace aslam { namespace backend {
class LinearSystemSolver;
class TrustRegionPolicy;
struct Optimizer2Options {
  Optimizer2Options() : convergenceDeltaJ(1e-3), convergenceDeltaX(1e-3), maxIterations(20), doSchurComplement(false),
                        verbose(false), linearSolverMaximumFails(0), nThreads(4), numThreadsJacobian(2), numThreadsError(1) {}
  double convergenceDeltaJ, convergenceDeltaX;
  int maxIterations;
  bool doSchurComplement, verbose;
  int linearSolverMaximumFails, nThreads;
  size_t numThreadsJacobian, numThreadsError;
  boost::shared_ptr<LinearSystemSolver> linearSystemSolver;
  boost::shared_ptr<TrustRegionPolicy> trustRegionPolicy;
};
} }
#endif
