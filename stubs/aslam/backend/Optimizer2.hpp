// Stand-in for aslam_backend's Optimizer2: plain Gauss-Newton, or whatever the
// installed environment answers.
#ifndef VERIF_ASLAM_BACKEND_O2_HPP
#define VERIF_ASLAM_BACKEND_O2_HPP

#include <limits>
#include <stdexcept>
#include <vector>

#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>

#include <aslam/backend/LinearSystemSolver.hpp>
#include <aslam/backend/OptimizationProblemBase.hpp>
#include <aslam/backend/Optimizer2Options.hpp>
#include <aslam/backend/TrustRegionPolicy.hpp>
#include <sm/PropertyTree.hpp>
#include <verif_env.hpp>

namespace aslam {
namespace backend {

struct SolutionReturnValue {
  SolutionReturnValue() : iterations(0), failedIterations(0), JStart(-1), JFinal(-1), linearSolverFailure(false), dXFinal(0), dJFinal(0) {}
  int iterations, failedIterations;
  double JStart, JFinal;
  bool linearSolverFailure;
  double dXFinal, dJFinal;
};

class Optimizer2 {
 public:
  typedef Optimizer2Options Options;
  explicit Optimizer2(const Options& options = Options()) : _options(options) { initializeLinearSolver(); initializeTrustRegionPolicy(); }
  Optimizer2(const sm::PropertyTree& config, boost::shared_ptr<LinearSystemSolver> solver,
             boost::shared_ptr<TrustRegionPolicy> policy) {
    _options.convergenceDeltaJ = config.getDouble("convergenceDeltaJ", _options.convergenceDeltaJ);
    _options.convergenceDeltaX = config.getDouble("convergenceDeltaX", _options.convergenceDeltaX);
    _options.maxIterations = config.getInt("maxIterations", _options.maxIterations);
    _options.verbose = config.getBool("verbose", _options.verbose);
    _options.nThreads = config.getInt("nThreads", _options.nThreads);
    _options.linearSystemSolver = solver;
    _options.trustRegionPolicy = policy;
    initializeLinearSolver();
    initializeTrustRegionPolicy();
  }
  virtual ~Optimizer2() {}

  void setProblem(boost::shared_ptr<OptimizationProblemBase> problem) { _problem = problem; }
  boost::shared_ptr<OptimizationProblemBase> problem() const { return _problem; }
  Options& options() { return _options; }
  const Options& options() const { return _options; }
  void setOptions(const Options& o) { _options = o; }
  void initializeLinearSolver() { _solver = _options.linearSystemSolver; }
  void initializeTrustRegionPolicy() { _policy = _options.trustRegionPolicy; }
  template <class T> T* getSolver() { return dynamic_cast<T*>(_solver.get()); }
  template <class T> const T* getSolver() const { return dynamic_cast<const T*>(_solver.get()); }
  boost::shared_ptr<LinearSystemSolver> getBaseSolver() { return _solver; }

  // lays the active design variables and the error terms out and hands them to
  // the linear solver
  void initialize() {
    if (!_problem) throw std::runtime_error("Optimizer2: no problem set");
    if (!_solver) throw std::runtime_error("Optimizer2: no linear solver");
    if (!_policy) throw std::runtime_error("Optimizer2: no trust region policy");
    _dvs.clear(); _ets.clear();
    int col = 0;
    for (size_t i = 0; i < _problem->numDesignVariables(); ++i) {
      DesignVariable* d = _problem->designVariable(i);
      if (d->isActive()) {
        d->setBlockIndex((int)_dvs.size()); d->setColumnBase(col);
        _dvs.push_back(d); col += d->minimalDimensions();
      }
    }
    if (_dvs.empty()) throw std::runtime_error("Optimizer2: no active design variables");
    size_t row = 0;
    for (size_t i = 0; i < _problem->numErrorTerms(); ++i) {
      ErrorTerm* e = _problem->errorTerm(i);
      e->setRowBase(row); row += e->dimension();
      _ets.push_back(e);
    }
    if (_ets.empty()) throw std::runtime_error("Optimizer2: no error terms");
    _solver->initMatrixStructure(_dvs, _ets, _policy->requiresAugmentedDiagonal());
  }
  const std::vector<DesignVariable*>& designVariables() const { return _dvs; }
  const std::vector<ErrorTerm*>& errorTerms() const { return _ets; }

  SolutionReturnValue optimize() {
    SolutionReturnValue srv;
    if (auto* e = ::verif::Env::current()) if (e->onOptimize(*this, srv)) return srv;
    initialize();
    double J = _solver->evaluateError(_options.numThreadsError, true);
    srv.JStart = J;
    double dx = std::numeric_limits<double>::infinity(), dJ = dx;
    while (srv.iterations < _options.maxIterations && dx > _options.convergenceDeltaX && std::abs(dJ) > _options.convergenceDeltaJ) {
      _solver->buildSystem(_options.numThreadsJacobian, true);
      Eigen::VectorXd step;
      if (!_solver->solveSystem(step)) { srv.linearSolverFailure = true; break; }
      for (DesignVariable* d : _dvs) d->update(step.data() + d->columnBase(), d->minimalDimensions());
      double Jn = _solver->evaluateError(_options.numThreadsError, true);
      ++srv.iterations;
      dJ = J - Jn; dx = step.size() ? step.cwiseAbs().maxCoeff() : 0.0;
      if (Jn > J) {
        ++srv.failedIterations;
        for (DesignVariable* d : _dvs) d->revertUpdate();
        _solver->evaluateError(_options.numThreadsError, true);
        break;
      }
      J = Jn;
    }
    srv.JFinal = J; srv.dXFinal = dx; srv.dJFinal = dJ;
    return srv;
  }

 private:
  Options _options;
  boost::shared_ptr<OptimizationProblemBase> _problem;
  boost::shared_ptr<LinearSystemSolver> _solver;
  boost::shared_ptr<TrustRegionPolicy> _policy;
  std::vector<DesignVariable*> _dvs;
  std::vector<ErrorTerm*> _ets;
};

}  // namespace backend
}  // namespace aslam
#endif
