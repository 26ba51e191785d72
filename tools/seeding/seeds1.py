from seed import seed
IOP = "incremental_calibration/src/core/IncrementalOptimizationProblem.cpp"
OP = "incremental_calibration/src/core/OptimizationProblem.cpp"
EST = "incremental_calibration/src/core/IncrementalEstimator.cpp"
TSVD = "aslam_tsvd_solver/src/aslam-tsvd-solver.cc"
INC = "incremental_calibration/include/aslam/calibration/"
CORE = '#include "demo_core.hpp"\nint main() {\n'

seed("c01-group-order", "C01", [(IOP, """            _groupsOrdering.erase(it);
          }
""", """            std::swap(*it, _groupsOrdering.back());
            _groupsOrdering.pop_back();
          }
""")], CORE + """  auto a = dv(1), b = dv(1), c = dv(1);
  BP p = batch(), q = batch();
  p->addDesignVariable(a, 0); q->addDesignVariable(b, 1); q->addDesignVariable(c, 2);
  BP r = batch(); auto d = dv(1); r->addDesignVariable(d, 3);
  IncrementalOptimizationProblem i; i.add(p); i.add(q); i.add(r);
  i.remove(size_t(0));
  EXPECT((i.getGroupsOrdering() == std::vector<size_t>{1, 2, 3}));
  EXPECT(i.designVariable(0) == b.get() && i.designVariable(1) == c.get() && i.designVariable(2) == d.get());
  return 0;
}
""", "three groups, and removal of the batch that holds the first of them alone", "When a group disappears, the last group is moved into its place, so that the order of groups and variables changes.")

seed("c02-error-term-lookup", "C02", [(OP, """      const size_t numDV = errorTerm->numDesignVariables();
      for (size_t i = 0; i < numDV; ++i) {
        const DesignVariable* dv = errorTerm->designVariable(i);
        if (!isDesignVariableInProblem(dv))
          throw InvalidOperationException(
            "error term contains a design variable not in the problem",
            __FILE__, __LINE__, __PRETTY_FUNCTION__);
      }
      _errorTermsLookup.insert(errorTerm.get());
""", """      _errorTermsLookup.insert(errorTerm.get());
      const size_t numDV = errorTerm->numDesignVariables();
      for (size_t i = 0; i < numDV; ++i) {
        const DesignVariable* dv = errorTerm->designVariable(i);
        if (!isDesignVariableInProblem(dv))
          throw InvalidOperationException(
            "error term contains a design variable not in the problem",
            __FILE__, __LINE__, __PRETTY_FUNCTION__);
      }
""")], CORE + """  auto a = dv(1), b = dv(1); BP p = batch(); p->addDesignVariable(a, 0);
  ETP e = et({a, b}, 0); EXPECT(throws([&] { p->addErrorTerm(e); }));
  EXPECT(p->numErrorTerms() == 0 && !p->isErrorTermInProblem(e.get()));
  p->addDesignVariable(b, 0); EXPECT(!throws([&] { p->addErrorTerm(e); }));
  return 0;
}
""", "an error term refused because a variable is missing", "The refused error term stays registered: it is counted and cannot be added later.")

seed("c03-cached-position", "C03", [(OP, """      size_t idxRunning = 0;
      size_t groupIdRunning = 0;
""", """      size_t idxRunning = 0;
      size_t groupIdRunning = 0;
      if (_lastSize == _designVariablesLookup.size() && idx >= _lastBegin &&
          idx < _lastEnd) {
        groupId = _lastGroup;
        idxGroup = idx - _lastBegin;
        return;
      }
"""), (OP, """      groupId = groupIdRunning;
      idxGroup = idx - idxRunning;
""", """      groupId = groupIdRunning;
      idxGroup = idx - idxRunning;
      _lastGroup = groupId;
      _lastBegin = idxRunning;
      _lastEnd = idxRunning + _designVariables.at(groupId).size();
      _lastSize = _designVariablesLookup.size();
"""), (INC + "core/OptimizationProblem.h", """      std::vector<size_t> _groupsOrdering;
""", """      std::vector<size_t> _groupsOrdering;
      /// Group found by the last access by position
      mutable size_t _lastGroup = 0, _lastBegin = 0, _lastEnd = 0, _lastSize = 0;
""")], CORE + """  auto a = dv(1), b = dv(1); BP p = batch(); p->addDesignVariable(a, 0); p->addDesignVariable(b, 1);
  EXPECT(p->designVariable(0) == a.get());
  p->setGroupsOrdering({1, 0});
  EXPECT(p->designVariable(0) == b.get() && p->designVariable(1) == a.get());
  return 0;
}
""", "an access by position, then a new order of the groups, then an access to the same position", "The cached position of the last group is not dropped when the groups are reordered.")

seed("c04-first-save", "C04", [(IOP, """        it->first->getParameters(
          _designVariablesBackup[const_cast<DesignVariable*>(it->first)]);
""", """        if (!_designVariablesBackup.count(
            const_cast<DesignVariable*>(it->first)) || it->second.first == 1)
          it->first->getParameters(
            _designVariablesBackup[const_cast<DesignVariable*>(it->first)]);
""")], CORE + """  auto a = dv(1, 1); BP p = batch(), q = batch(); p->addDesignVariable(a, 0); q->addDesignVariable(a, 0);
  IncrementalOptimizationProblem i; i.add(p); i.add(q); i.saveDesignVariables();
  a->v(0) = 2; i.saveDesignVariables(); a->v(0) = 3; i.restoreDesignVariables();
  EXPECT(a->v(0) == 2);
  return 0;
}
""", "a variable shared by two batches and a second save", "A shared variable that was saved before is not saved again.")

seed("e01-rank-validity", "E01", [(EST, """      if (((ret.informationGain > _options.infoGainDelta ||
          ret.rankTheta > _rankTheta) && solutionValid) || force) {""",
"""      if ((ret.informationGain > _options.infoGainDelta && solutionValid) ||
          ret.rankTheta > _rankTheta || force) {""")], CORE + """  Script s; verif::Env::current() = &s;
  IncrementalEstimator::Options o; o.infoGainDelta = 0.1; o.checkValidity = true; o.verbose = false;
  IncrementalEstimator e(1, o);
  auto x = dv(1), y = dv(1); BP p = batch(), q = batch();
  p->addDesignVariable(x, 0); p->addDesignVariable(y, 1); p->addErrorTerm(et({x, y}, 0));
  q->addDesignVariable(y, 1); q->addErrorTerm(et({y}, 0));
  EXPECT(e.addBatch(p).batchAccepted);
  s.rank = 2; s.j1 = 11;   // rank rises, but the cost did not go down
  EXPECT(!e.addBatch(q).batchAccepted && e.getNumBatches() == 1);
  return 0;
}
""", "a batch that raises the rank while its optimisation is invalid, with validity checking on", "Batches that raise the rank are kept although their solution is invalid.")

seed("e02-single-batch", "E02", [(EST, """        // restore the linear solver
        if (_problem->getNumOptimizationProblems() > 0)
          restoreLinearSolver();""", """        // restore the linear solver
        if (_problem->getNumOptimizationProblems() > 1)
          restoreLinearSolver();""")], CORE + """  Script s; verif::Env::current() = &s;
  IncrementalEstimator::Options o; o.infoGainDelta = 5; o.verbose = false;
  IncrementalEstimator e(1, o);
  auto x = dv(1), y = dv(1); BP p = batch(), q = batch();
  p->addDesignVariable(x, 0); p->addDesignVariable(y, 1); p->addErrorTerm(et({x, y}, 0));
  q->addDesignVariable(y, 1); q->addErrorTerm(et({y}, 0));
  EXPECT(e.addBatch(p, true).batchAccepted);
  const auto n = e.getJacobianTranspose().cols();
  EXPECT(!e.addBatch(q).batchAccepted);
  EXPECT(s.lastErrors == 1 && e.getJacobianTranspose().cols() == n);
  return 0;
}
""", "a rejection that leaves exactly one batch", "After the rejection the solver still holds the Jacobian of the rejected batch.")

seed("e03-stale-scaled", "E03", [(EST, """      else {
        _singularValuesScaled.resize(0);
        _nobsBasisScaled.resize(0, 0);
        _obsBasisScaled.resize(0, 0);
        _sigma2ThetaScaled.resize(0, 0);
        _sigma2ThetaObsScaled.resize(0, 0);
      }

      // analyze the unscaled marginal system""", """      else {
        _singularValuesScaled.resize(0);
        _nobsBasisScaled.resize(0, 0);
        _obsBasisScaled.resize(0, 0);
        _sigma2ThetaScaled.resize(0, 0);
      }

      // analyze the unscaled marginal system""")], CORE + """  Script s; verif::Env::current() = &s;
  IncrementalEstimator::Options o; o.verbose = false; IncrementalEstimator e(1, o);
  auto x = dv(1), y = dv(1); BP p = batch(), q = batch();
  p->addDesignVariable(x, 0); p->addDesignVariable(y, 1); p->addErrorTerm(et({x, y}, 0));
  q->addDesignVariable(y, 1); q->addErrorTerm(et({y}, 0));
  e.getLinearSolverOptions().columnScaling = true;
  e.addBatch(p, true); e.addBatch(q, true);
  EXPECT(e.getSigma2ThetaObs(true).size() == 1);
  e.getLinearSolverOptions().columnScaling = false;
  e.removeBatch(q);
  EXPECT(e.getSigma2ThetaObs(true).size() == 0 && e.getSigma2Theta(true).size() == 0);
  return 0;
}
""", "column scaling switched off between adding batches and a reoptimisation", "The scaled observable covariance of the earlier system stays published.")

seed("e04-inactive", "E04", [(EST, """      const size_t dim = _problem->getGroupDim(_margGroupId);
      auto linearSolver = _optimizer->getSolver<LinearSolver>();
      linearSolver->setMargStartIndex(static_cast<std::ptrdiff_t>(JCols - dim));

      // optimize
      aslam::backend::SolutionReturnValue srv = _optimizer->optimize();

      // grep""", """      size_t dim = 0;
      const auto& margGroup = _problem->getDesignVariablesGroup(_margGroupId);
      for (auto it = margGroup.cbegin(); it != margGroup.cend(); ++it)
        dim += (*it)->minimalDimensions();
      auto linearSolver = _optimizer->getSolver<LinearSolver>();
      linearSolver->setMargStartIndex(static_cast<std::ptrdiff_t>(JCols - dim));

      // optimize
      aslam::backend::SolutionReturnValue srv = _optimizer->optimize();

      // grep""")], CORE + """  Script s; verif::Env::current() = &s;
  IncrementalEstimator::Options o; o.verbose = false; IncrementalEstimator e(1, o);
  auto x = dv(3), y = dv(1), z = dv(2, 1, false); BP p = batch();
  p->addDesignVariable(x, 0); p->addDesignVariable(y, 1); p->addDesignVariable(z, 1); p->addErrorTerm(et({x, y}, 0, 1, 3));
  e.addBatch(p, true); EXPECT(s.split == 3 && s.splitMarginal == 3);
  e.reoptimize(); EXPECT(s.split == 3 && s.splitMarginal == 3);
  return 0;
}
""", "a calibration variable that is not active, and a reoptimisation", "The split index of a reoptimisation counts inactive calibration variables.")

seed("e05-unknown-batch", "E05", [(EST, """      if (it != _problem->getOptimizationProblemEnd())
        removeBatch(std::distance(_problem->getOptimizationProblemBegin(), it));""",
"""      removeBatch(std::min<size_t>(std::distance(
        _problem->getOptimizationProblemBegin(), it), getNumBatches() - 1));""")], CORE + """  Script s; verif::Env::current() = &s;
  IncrementalEstimator::Options o; o.verbose = false; IncrementalEstimator e(1, o);
  auto x = dv(1), y = dv(1); BP p = batch(), q = batch();
  p->addDesignVariable(x, 0); p->addDesignVariable(y, 1); p->addErrorTerm(et({x, y}, 0));
  q->addDesignVariable(y, 1); q->addErrorTerm(et({y}, 0));
  e.addBatch(p, true);
  try { e.removeBatch(q); } catch (const std::exception&) {}
  EXPECT(e.getNumBatches() == 1);
  return 0;
}
""", "removal of a batch that is not contained while others are", "Removing a batch the estimator does not hold removes the last one it holds.")

seed("e06-svlog-reoptimize", "E06", [(EST, """      // init the matrix structure
      std::vector<aslam::backend::DesignVariable*> dvs;
      const size_t numDVS = _problem->numDesignVariables();
      dvs.reserve(numDVS);
      size_t columnBase = 0;
      for (size_t i = 0; i < numDVS; ++i) {
        aslam::backend::DesignVariable* dv = _problem->designVariable(i);
        if (dv->isActive()) {
          dvs.push_back(dv);
          dv->setBlockIndex(dvs.size() - 1);
          dv->setColumnBase(columnBase);
          columnBase += dv->minimalDimensions();
        }
      }
      std::vector<aslam::backend::ErrorTerm*> ets;
      const size_t numETS = _problem->numErrorTerms();
      ets.reserve(numETS);
      size_t dim = 0;""", """      // init the matrix structure
      std::vector<aslam::backend::DesignVariable*> dvs;
      const size_t numDVS = _problem->numDesignVariables();
      dvs.reserve(numDVS);
      for (size_t i = 0; i < numDVS; ++i) {
        aslam::backend::DesignVariable* dv = _problem->designVariable(i);
        if (dv->isActive()) {
          dv->setBlockIndex(dvs.size());
          dv->setColumnBase(dvs.size() * dv->minimalDimensions());
          dvs.push_back(dv);
        }
      }
      std::vector<aslam::backend::ErrorTerm*> ets;
      const size_t numETS = _problem->numErrorTerms();
      ets.reserve(numETS);
      size_t dim = 0;""")], CORE + """  IncrementalEstimator::Options o; o.infoGainDelta = 1e9; o.verbose = false; IncrementalEstimator e(1, o);
  auto x = dv(2), y = dv(1); BP p = batch(), q = batch();
  p->addDesignVariable(x, 0); p->addDesignVariable(y, 1); p->addErrorTerm(et({x}, 1, 1, 2)); p->addErrorTerm(et({y}, 2));
  q->addDesignVariable(y, 1); q->addErrorTerm(et({y}, 3));
  e.addBatch(p, true); const int c = y->columnBase();
  EXPECT(c == 2);
  EXPECT(!e.addBatch(q).batchAccepted);
  EXPECT(y->columnBase() == c && x->columnBase() == 0);
  return 0;
}
""", "variables of different dimensions, and a rejected batch", "Restoring the solver after a rejection lays variables out as if all had the same dimension, so that the Jacobian left behind is not that of the kept batches.")

seed("l01-default-option", "L01", [(TSVD, """      config.getBool("columnScaling", tsvd_options.columnScaling);
  tsvd_options.epsNorm = config.getDouble("epsNorm", tsvd_options.epsNorm);
  tsvd_options.epsSVD = config.getDouble("epsSVD", tsvd_options.epsSVD);
  tsvd_options.epsQR = config.getDouble("epsQR", tsvd_options.epsQR);""", """      config.getBool("columnScaling", tsvd_options.columnScaling);
  tsvd_options.epsNorm = config.getDouble("epsNorm", tsvd_options.epsNorm);
  tsvd_options.epsSVD = config.getDouble("epsSVD", tsvd_options.epsNorm);
  tsvd_options.epsQR = config.getDouble("epsQR", tsvd_options.epsQR);""")], CORE.replace("#include", "#include <sm/BoostPropertyTree.hpp>\n#include", 1) + """  aslam::backend::AslamTruncatedSvdSolver::Options d;
  sm::BoostPropertyTree t; t.setDouble("epsNorm", 0.5);
  aslam::backend::AslamTruncatedSvdSolver s((sm::PropertyTree(t)));
  EXPECT(s.getOptions().epsNorm == 0.5 && s.getOptions().epsSVD == d.epsSVD && s.getOptions().epsQR == d.epsQR);
  return 0;
}
""", "a configuration that gives epsNorm and not epsSVD", "An option not given takes the value given for another one.")

BASE = '''#include <iostream>
#include <vector>
#include <cmath>
#include <limits>
#include <Eigen/Dense>
%s
using namespace aslam::calibration;
#define EXPECT(x) do { if (!(x)) { std::cerr << "line " << __LINE__ << ": not " << #x << std::endl; return 1; } } while (0)
int main() {
'''
def base(*inc): return BASE % "\n".join("#include <aslam/calibration/%s>" % i for i in inc)

seed("a01-long-cycle", "A01", [(INC + "algorithms/permute.tpp", """        while (k < i)
""", """        for (int hops = 0; k < i && hops < 2; ++hops)
""")], base("algorithms/permute.h") + """  std::vector<int> v = {0, 1, 2, 3, 4, 5}, w; std::vector<size_t> p = {5, 0, 1, 2, 3, 4};
  for (size_t i : p) w.push_back(v[i]);
  permute(v, p); EXPECT(v == w);
  std::vector<int> a = {0, 1, 2, 3, 4, 5, 6}, b; std::vector<size_t> q = {1, 2, 3, 4, 5, 6, 0};
  for (size_t i : q) b.push_back(a[i]);
  permute(a, q); EXPECT(a == b);
  std::vector<int> c = {0, 1, 2, 3, 4, 5}; std::vector<size_t> r = {4, 0, 1, 2, 5, 3}; std::vector<int> d;
  for (size_t i : r) d.push_back(c[i]);
  permute(c, r); EXPECT(c == d);
  return 0;
}
""", "a permutation whose cycle must be followed back more than twice", "Long cycles are not followed to their end.", kind="base")

seed("g01-linear-index", "G01", [(INC + "data-structures/Grid.tpp", """          mLinProd(i) *= mNumCells(j);""", """          mLinProd(i) *= mNumCells(j - (i > 0));""")], base("data-structures/Grid.h") + """  typedef Grid<double, int, 3> G; G g(G::Coordinate(0, 0, 0), G::Coordinate(2, 2, 4), G::Coordinate(1, 1, 1)); int n = 0;
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) for (int k = 0; k < 4; ++k) g.getCell(G::Index(i, j, k)) = ++n;
  n = 0; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) for (int k = 0; k < 4; ++k) EXPECT(g.getCell(G::Index(i, j, k)) == ++n);
  return 0;
}
""", "a grid in three dimensions whose last two have different numbers of cells", "Two cells share their storage.", kind="base")

seed("g02-add-samples", "G02", [(INC + "statistics/Histogram1v.tpp", """      for (size_t i = 0; i < samples.size(); ++i)
        addSample(samples[i]);""", """      Histogram added(*this);
      for (size_t i = 0; i < samples.size(); ++i)
        added.addSample(samples[i]);
      if (!samples.empty() && samples.back() <= this->getMaximum()(0))
        *this = added;""")], base("statistics/Histogram.h") + """  Histogram<double, 1> h(0, 4, 1);
  h.addSamples({0.5, 1.5, 9.0}); EXPECT(h.getSum() == 2);
  return 0;
}
""", "a list of samples whose last one is out of range", "The whole list is dropped if its last sample is out of range.", kind="base")

seed("s01-stale-normalizer", "S01", [("incremental_calibration/src/statistics/NormalDistribution1v.cpp", """      mStandardDeviation = sqrt(variance);
      mNormalizer = 0.5 * log(2.0 * M_PI * mVariance);""", """      const double standardDeviation = sqrt(variance);
      if (standardDeviation == mStandardDeviation)
        return;
      mStandardDeviation = standardDeviation;
      mNormalizer = 0.5 * log(2.0 * M_PI * mVariance);"""),
 ("incremental_calibration/src/statistics/NormalDistribution1v.cpp", """        mStandardDeviation(other.mStandardDeviation),
        mNormalizer(other.mNormalizer) {""", """        mStandardDeviation(other.mStandardDeviation),
        mNormalizer(0.5 * log(2.0 * M_PI * other.mStandardDeviation)) {"""),
 ], base("statistics/NormalDistribution.h") + """  NormalDistribution<1> a(0, 4), b(a); EXPECT(std::fabs(a.pdf(0) - b.pdf(0)) < 1e-12);
  b.setVariance(4); EXPECT(std::fabs(b.pdf(1) - a.pdf(1)) < 1e-12);
  return 0;
}
""", "a copy of a distribution whose variance is not one", "A copied normal distribution has a wrong normaliser until its variance changes.", kind="base")

seed("v01-revert-set", "V01", [(INC + "data-structures/VectorDesignVariable.tpp", """        _value = other._value;
        _oldValue = other._oldValue;
      }
      return *this;""", """        _oldValue = _value;
        _value = other._value;
      }
      return *this;""")], '#include "demo_core.hpp"\n#include <aslam/calibration/data-structures/VectorDesignVariable.h>\nint main() {\n' + """  typedef VectorDesignVariable<2> V; V a(Eigen::Vector2d(1, 2)), b(Eigen::Vector2d(5, 6));
  const double d[] = {1, 1}; a.update(d, 2); b = a; b.revertUpdate();
  EXPECT(b.getValue() == Eigen::Vector2d(1, 2));
  return 0;
}
""", "an assignment followed by a revert", "After an assignment a revert brings back the value before the assignment instead of the copied history.")

seed("m01-reset", "M01", [("incremental_calibration/src/statistics/EstimatorMLNormal1v.cpp", """      mValuesSum = 0;
      mSquaredValuesSum = 0;
    }

    void""", """      mValuesSum = 0;
    }

    void""")], base("statistics/EstimatorML.h", "statistics/NormalDistribution.h") + """  EstimatorML<NormalDistribution<1>> e; e.addPoint(-3); e.addPoint(-1); e.reset(); EXPECT(!e.getValid() && e.getNumPoints() == 0);
  e.addPoint(0); e.addPoint(2); EXPECT(e.getValid() && std::fabs(e.getDistribution().getVariance() - 1) < 1e-9);
  return 0;
}
""", "a reset, then further points", "After a reset the squares of the earlier points are still counted.", kind="base")
