// A variable and an error term for the demonstrations, and what a run needs.
#pragma once
#include <cstdio>
#include <iostream>
#include <set>
#include <vector>
#include <Eigen/Core>
#include <boost/make_shared.hpp>
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/ErrorTerm.hpp>
#include <aslam/backend/Optimizer2.hpp>
#include <aslam/calibration/core/IncrementalEstimator.h>
#include <aslam/calibration/core/IncrementalOptimizationProblem.h>
#include <aslam/calibration/core/OptimizationProblem.h>
#include <aslam-tsvd-solver/aslam-tsvd-solver.h>
#include <verif_env.hpp>

using namespace aslam::calibration;
#define EXPECT(x) do { if (!(x)) { std::cerr << "line " << __LINE__ << ": not " << #x << std::endl; return 1; } } while (0)
template <class F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }

struct DV : aslam::backend::DesignVariable {
  Eigen::VectorXd v, old;
  explicit DV(int dim, double x = 1, bool active = true) : v(Eigen::VectorXd::Constant(dim, x)) { setActive(active); }
  virtual void revertUpdateImplementation() { v = old; }
  virtual void updateImplementation(const double* dp, int n) { old = v; for (int i = 0; i < n; ++i) v(i) += dp[i]; }
  virtual int minimalDimensionsImplementation() const { return (int)v.size(); }
  virtual void getParametersImplementation(Eigen::MatrixXd& p) const { p = v; }
  virtual void setParametersImplementation(const Eigen::MatrixXd& p) { v = p; }
};
typedef boost::shared_ptr<DV> DVP;
inline DVP dv(int dim, double x = 1, bool active = true) { return boost::make_shared<DV>(dim, x, active); }
// measures scale * sum of the variables' first components, and every other component on its own row
struct ET : aslam::backend::ErrorTerm {
  double z, scale;
  ET(const std::vector<DVP>& d, double z, double scale = 1, int dim = 1) : aslam::backend::ErrorTerm(dim), z(z), scale(scale) {
    std::vector<aslam::backend::DesignVariable*> p; for (auto& x : d) p.push_back(x.get()); setDesignVariables(p); }
  Eigen::VectorXd r() const { Eigen::VectorXd e = Eigen::VectorXd::Constant(dimension(), -z);
    for (size_t k = 0; k < numDesignVariables(); ++k) { const DV* d = static_cast<const DV*>(designVariable(k)); for (int i = 0; i < e.size(); ++i) e(i) += scale * d->v(i % d->v.size()); }
    return e; }
  virtual double evaluateErrorImplementation() { return r().squaredNorm(); }
  virtual void evaluateJacobiansImplementation(aslam::backend::JacobianContainer& J) {
    for (size_t k = 0; k < numDesignVariables(); ++k) { const DV* d = static_cast<const DV*>(designVariable(k)); Eigen::MatrixXd m = Eigen::MatrixXd::Zero(dimension(), d->v.size());
      for (int i = 0; i < m.rows(); ++i) m(i, i % m.cols()) = scale; J.add(designVariable(k), m); } }
  virtual Eigen::VectorXd vsErrorImplementation() const { return r(); }
};
typedef boost::shared_ptr<ET> ETP;
inline ETP et(const std::vector<DVP>& d, double z, double scale = 1, int dim = 1) { return boost::make_shared<ET>(d, z, scale, dim); }
typedef boost::shared_ptr<OptimizationProblem> BP;
inline BP batch() { return boost::make_shared<OptimizationProblem>(); }

// answers the optimisations from a script instead of solving anything
struct Script : verif::Env {
  int iterations = 2; double j0 = 10, j1 = 1, log = 0; int rank = 1, psi = 3; double mark = 1; std::ptrdiff_t split = -1, splitMarginal = -1;
  std::set<std::string> log_; int structures = 0, builds = 0; size_t lastErrors = 0;
  void fill(verif::SvdAnswer& a, double m) { a.svdRank = rank; a.svdRankDeficiency = 5; a.qrRank = psi; a.qrRankDeficiency = 6; a.svLog2Sum = log; a.svdTolerance = m; a.qrTolerance = m + 1; a.numFlops = m + 2; a.peakMemory = size_t(m) + 3; a.memory = size_t(m) + 4;
    a.singularValues = Eigen::VectorXd::Constant(1, m + 5); a.nullSpace = Eigen::MatrixXd::Constant(1, 1, m + 6); a.rowSpace = Eigen::MatrixXd::Constant(1, 1, m + 7); a.covariance = Eigen::MatrixXd::Constant(1, 1, m + 8); a.rowSpaceCovariance = Eigen::MatrixXd::Constant(1, 1, m + 9); a.matrixV = a.matrixU = a.rowSpace; }
  virtual bool onOptimize(aslam::backend::Optimizer2& o, aslam::backend::SolutionReturnValue& s) { o.initialize(); o.getBaseSolver()->evaluateError(1, true); o.getBaseSolver()->buildSystem(1, true); Eigen::VectorXd x; o.getBaseSolver()->solveSystem(x); s.iterations = iterations; s.JStart = j0; s.JFinal = j1; return true; }
  virtual bool onSolve(truncated_svd_solver::TruncatedSvdSolver&, cholmod_sparse* A, cholmod_dense*, std::ptrdiff_t j, Eigen::VectorXd& x, verif::SvdAnswer& a) { split = j; x = Eigen::VectorXd::Zero(A->ncol); fill(a, 100 * mark); return true; }
  virtual bool onAnalyzeMarginal(truncated_svd_solver::TruncatedSvdSolver&, cholmod_sparse*, std::ptrdiff_t j, verif::SvdAnswer& a) { splitMarginal = j; fill(a, mark); return true; }
  virtual void onInitStructure(const std::vector<aslam::backend::DesignVariable*>&, const std::vector<aslam::backend::ErrorTerm*>& e) { ++structures; lastErrors = e.size(); }
  virtual void onBuildSystem(size_t, bool) { ++builds; }
};
