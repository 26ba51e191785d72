// E01-E05: the incremental estimator, driven through every history of requests
// up to a depth, with the optimiser and the SVD solver answering everything
// they may answer (from a finite domain that separates all the cases).
#include <mc.hpp>
#include <core_common.hpp>

#include <limits>

#include <aslam-tsvd-solver/aslam-tsvd-solver.h>
#include <aslam/backend/Optimizer2.hpp>
#include <aslam/calibration/core/IncrementalEstimator.h>
#include <aslam/calibration/core/IncrementalOptimizationProblem.h>
#include <aslam/calibration/core/OptimizationProblem.h>
#include <sm/BoostPropertyTree.hpp>
#include <verif_env.hpp>

using namespace aslam::calibration;
using namespace core;
typedef boost::shared_ptr<OptimizationProblem> BatchSP;
typedef IncrementalEstimator::ReturnValue Ret;

namespace {

struct SolverFailure : std::runtime_error { SolverFailure() : std::runtime_error("the optimiser failed") {} };

enum Focus { Acceptance, Rejection, Published, Marginal, Failures, Reconfigured };

struct Figures {
  double gain = 0, svdTol = 0, qrTol = 0, flops = 0, j0 = 0, j1 = 0;
  std::ptrdiff_t rankTheta = 0, defTheta = 0, rankPsi = 0, defPsi = 0;
  size_t peak = 0, mem = 0;
  Eigen::MatrixXd nobs, nobsS, obs, obsS, cov, covS, covObs, covObsS, sv, svS;
};

bool same(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) {
  return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || a == b);
}
std::string show(const Eigen::MatrixXd& m) {
  std::ostringstream os; os << m.rows() << "x" << m.cols() << "[";
  for (int i = 0; i < m.size(); ++i) os << (i ? " " : "") << m.data()[i];
  os << "]"; return os.str();
}
// name of the first figure that differs
std::string differs(const Figures& a, const Figures& b, bool memory = true) {
  std::ostringstream os; os.precision(17);
#define D(f) if (!(a.f == b.f)) { os << #f << ": " << a.f << " instead of " << b.f; return os.str(); }
  D(gain) D(svdTol) D(qrTol) D(j0) D(j1) D(rankTheta) D(defTheta) D(rankPsi) D(defPsi)
  if (memory) { D(flops) D(peak) D(mem) }
#undef D
#define D(f, name) if (!same(a.f, b.f)) { os << name << ": " << show(a.f) << " instead of " << show(b.f); return os.str(); }
  D(nobs, "unobservable basis") D(nobsS, "scaled unobservable basis") D(obs, "observable basis") D(obsS, "scaled observable basis")
  D(cov, "covariance") D(covS, "scaled covariance") D(covObs, "observable covariance") D(covObsS, "scaled observable covariance")
  D(sv, "singular values") D(svS, "scaled singular values")
#undef D
  return "";
}

Figures published(const IncrementalEstimator& e) {
  Figures f;
  f.gain = e.getInformationGain(); f.svdTol = e.getSVDTolerance(); f.qrTol = e.getQRTolerance(); f.flops = e.getNumFlops();
  f.j0 = e.getInitialCost(); f.j1 = e.getFinalCost();
  f.rankTheta = e.getRankTheta(); f.defTheta = e.getRankThetaDeficiency(); f.rankPsi = e.getRankPsi(); f.defPsi = e.getRankPsiDeficiency();
  f.peak = e.getPeakMemoryUsage(); f.mem = e.getMemoryUsage();
  f.nobs = e.getNobsBasis(); f.nobsS = e.getNobsBasis(true); f.obs = e.getObsBasis(); f.obsS = e.getObsBasis(true);
  f.cov = e.getSigma2Theta(); f.covS = e.getSigma2Theta(true); f.covObs = e.getSigma2ThetaObs(); f.covObsS = e.getSigma2ThetaObs(true);
  f.sv = e.getSingularValues(); f.svS = e.getSingularValues(true);
  return f;
}
Figures returned(const Ret& r) {
  Figures f;
  f.gain = r.informationGain; f.svdTol = r.svdTolerance; f.qrTol = r.qrTolerance; f.j0 = r.JStart; f.j1 = r.JFinal;
  f.rankTheta = r.rankTheta; f.defTheta = r.rankThetaDeficiency; f.rankPsi = r.rankPsi; f.defPsi = r.rankPsiDeficiency;
  f.nobs = r.nobsBasis; f.nobsS = r.nobsBasisScaled; f.obs = r.obsBasis; f.obsS = r.obsBasisScaled;
  f.cov = r.sigma2Theta; f.covS = r.sigma2ThetaScaled; f.covObs = r.sigma2ThetaObs; f.covObsS = r.sigma2ThetaObsScaled;
  f.sv = r.singularValues; f.svS = r.singularValuesScaled;
  return f;
}

const double kLogs[] = {0.5, 0.75, 0.0, -1.0};

// What an optimisation may do to the estimator
enum Outcome { Converged, MaxIterations, CostEqual, CostHigher, ThrowsAtOnce, ThrowsHalfWay, MarginalThrows };

struct World;

struct Oracle : verif::Env {
  mc::Chooser* c = nullptr;
  World* w = nullptr;
  int generation = 0, optimisations = 0;
  // domain of the answers
  std::vector<Outcome> outcomes{Converged};
  int ranks = 1, logs = 1;
  // last answers
  Outcome outcome = Converged;
  aslam::backend::SolutionReturnValue srv;
  verif::SvdAnswer scaled, marginal;
  std::ptrdiff_t solveSplit = -1, marginalSplit = -1;
  std::vector<aslam::backend::DesignVariable*> layout;
  std::string layoutProblem;  // what was wrong with the layout, if anything
  bool throwInMarginal = false, threw = false;

  verif::SvdAnswer answer(int rank, double log) {
    ++generation;
    const double t = generation * 64.0;
    verif::SvdAnswer a;
    a.svdRank = rank; a.svdRankDeficiency = (std::ptrdiff_t)t + 1; a.qrRank = (std::ptrdiff_t)t + 2; a.qrRankDeficiency = (std::ptrdiff_t)t + 3;
    a.svLog2Sum = log; a.svdTolerance = t + 4; a.qrTolerance = t + 5; a.numFlops = t + 6;
    a.peakMemory = (size_t)t + 7; a.memory = (size_t)t + 8;
    a.singularValues = Eigen::VectorXd::Constant(2, t + 9);
    a.matrixU = Eigen::MatrixXd::Constant(2, 2, t + 10); a.matrixV = Eigen::MatrixXd::Constant(2, 2, t + 11);
    a.nullSpace = Eigen::MatrixXd::Constant(2, 1, t + 12); a.rowSpace = Eigen::MatrixXd::Constant(2, 1, t + 13);
    a.covariance = Eigen::MatrixXd::Constant(2, 2, t + 14); a.rowSpaceCovariance = Eigen::MatrixXd::Constant(1, 1, t + 15);
    return a;
  }
  bool onOptimize(aslam::backend::Optimizer2& o, aslam::backend::SolutionReturnValue& out) override;
  bool onSolve(truncated_svd_solver::TruncatedSvdSolver&, cholmod_sparse* A, cholmod_dense*, std::ptrdiff_t j, Eigen::VectorXd& x, verif::SvdAnswer& a) override {
    solveSplit = j;
    a = scaled = answer(1, 99.0);
    x = Eigen::VectorXd::Constant(A->ncol, generation);
    return true;
  }
  bool onAnalyzeMarginal(truncated_svd_solver::TruncatedSvdSolver&, cholmod_sparse*, std::ptrdiff_t j, verif::SvdAnswer& a) override {
    marginalSplit = j;
    if (throwInMarginal) { throwInMarginal = false; threw = true; throw SolverFailure(); }
    const int r = c->choose(ranks);
    const double l = kLogs[c->choose(logs)];
    a = marginal = answer(r, l);
    return true;
  }
};

struct World {
  std::vector<TestDVSP> dvs;
  std::vector<TestETSP> ets;
  std::vector<BatchSP> batches;
  std::vector<BatchSP> foreign;  // batches that must be refused
  Oracle oracle;
  size_t marg = 1;
  boost::shared_ptr<IncrementalEstimator> est;
  double log = 0.0;  // information content the kept batches had when last optimised
  std::ptrdiff_t rank = -1;
  double delta = 0.25;
  bool checkValidity = false, scaling = false;
  int maxIterations = 7;
  ~World() { verif::Env::current() = nullptr; }

  int dv(int dim, bool active = true) { dvs.push_back(boost::make_shared<TestDV>((int)dvs.size(), dim, active)); return (int)dvs.size() - 1; }
  BatchSP batch(const std::vector<std::pair<int, size_t>>& vars, int numErrors) {
    BatchSP b = boost::make_shared<OptimizationProblem>();
    std::vector<aslam::backend::DesignVariable*> p;
    for (auto& v : vars) { b->addDesignVariable(dvs[v.first], v.second); p.push_back(dvs[v.first].get()); }
    for (int i = 0; i < numErrors; ++i) {
      ets.push_back(boost::make_shared<TestET>((int)ets.size(), 1 + i, p));
      b->addErrorTerm(ets.back());
    }
    return b;
  }
  void build(int topology) {
    switch (topology) {
      case 0: {  // calibration group first, state groups alternate
        int th = dv(2), a = dv(1), b = dv(1), c = dv(3);
        batches = {batch({{th, 1}, {a, 0}}, 1), batch({{b, 0}, {th, 1}}, 2), batch({{th, 1}, {c, 2}}, 1)};
        foreign = {batch({{a, 1}, {th, 1}}, 1), batch({{dv(1), 0}, {th, 0}}, 1)};
        break;
      }
      case 1: {  // a batch without calibration variables, an inactive variable, two calibration variables
        int th = dv(1), th2 = dv(2, false), a = dv(2), b = dv(1, false), c = dv(1);
        batches = {batch({{a, 0}, {th, 1}, {b, 3}}, 1), batch({{c, 2}, {a, 0}}, 1), batch({{th2, 1}, {c, 2}, {th, 1}}, 2)};
        foreign = {batch({{dv(1), 3}, {th, 2}}, 1), batch({{dv(1), 0}, {dv(1), 7}, {a, 1}}, 1)};
        break;
      }
      case 2: {  // only calibration variables, then more groups than one
        int th = dv(1), th2 = dv(1), a = dv(1), b = dv(2), c = dv(1);
        batches = {batch({{th, 1}}, 1), batch({{th2, 1}, {a, 5}, {b, 0}}, 1), batch({{c, 4}, {b, 0}, {th, 1}, {a, 5}}, 1)};
        foreign = {batch({{th, 4}}, 1), batch({{dv(1), 9}, {th, 9}}, 1)};
        break;
      }
      case 3: {  // many batches, groups and dimensions; neighbours share a variable
        static const size_t groups[] = {6, 0, 11, 1, 3, 8};
        int th[5], prev = -1;
        for (int i = 0; i < 5; ++i) th[i] = dv(1 + i, i != 3);
        for (int b = 0; b < 15; ++b) {
          std::vector<std::pair<int, size_t>> vars;
          const int own = dv(1 + b % 6, b % 4 != 3);
          const size_t g = groups[b % 6] == 1 ? 6 : groups[b % 6];
          if (b % 3) vars.push_back({th[b % 5], 1});
          vars.push_back({own, g});
          if (prev >= 0) vars.push_back({prev, groups[(b - 1) % 6] == 1 ? 6 : groups[(b - 1) % 6]});
          if (b % 3 == 0) { vars.push_back({th[(b + 1) % 5], 1}); vars.push_back({th[b % 5], 1}); }
          batches.push_back(batch(vars, b % 5 == 4 ? 4 : 1 + b % 2));
          prev = own;
        }
        foreign = {batch({{th[0], 6}}, 1), batch({{dv(1), 9}, {prev, 9}}, 1)};
      }
    }
    oracle.w = this;
    verif::Env::current() = &oracle;
  }
  void make(int ctor) {
    IncrementalEstimator::Options o;
    o.infoGainDelta = delta; o.checkValidity = checkValidity; o.verbose = false;
    if (ctor == 0) {
      LinearSolverOptions l; l.columnScaling = scaling;
      IncrementalEstimator::OptimizerOptions oo; oo.maxIterations = maxIterations;
      est = boost::make_shared<IncrementalEstimator>(marg, o, l, oo);
    } else if (ctor == 1) {
      sm::BoostPropertyTree t;
      t.setInt("groupId", (int)marg);
      t.setDouble("infoGainDelta", delta); t.setBool("checkValidity", checkValidity); t.setBool("verbose", false);
      t.setInt("optimizer/maxIterations", maxIterations); t.setBool("optimizer/linearSolver/columnScaling", scaling);
      est = boost::make_shared<IncrementalEstimator>(t);
    } else {  // options changed after construction
      est = boost::make_shared<IncrementalEstimator>(marg);
      est->getOptions() = o;
      est->getLinearSolverOptions().columnScaling = scaling;
      est->getOptimizerOptions().maxIterations = maxIterations;
    }
  }
  std::vector<Eigen::VectorXd> values() const {
    std::vector<Eigen::VectorXd> v;
    for (auto& d : dvs) v.push_back(d->value);
    return v;
  }
  // indices of the batches in the estimator, in its order
  std::vector<int> kept() const {
    std::vector<int> r;
    for (auto& p : est->getProblem()->getOptimizationProblems()) {
      int k = -1;
      for (size_t i = 0; i < batches.size(); ++i) if (batches[i] == p) k = (int)i;
      for (size_t i = 0; i < foreign.size(); ++i) if (foreign[i] == p) k = 100 + (int)i;
      r.push_back(k);
    }
    return r;
  }
  std::vector<int> dvSequence() const {
    std::vector<int> r;
    const IncrementalOptimizationProblem* p = est->getProblem();
    for (size_t i = 0; i < p->numDesignVariables(); ++i) r.push_back(dvId(p->designVariable(i)));
    return r;
  }
  std::vector<int> etSequence() const {
    std::vector<int> r;
    const IncrementalOptimizationProblem* p = est->getProblem();
    for (size_t i = 0; i < p->numErrorTerms(); ++i) r.push_back(etId(p->errorTerm(i)));
    return r;
  }
  size_t groupDim(size_t g) const {  // active dimensions of a group, from the batches themselves
    size_t d = 0;
    std::set<int> seen;
    for (int k : kept()) {
      const BatchSP& b = k >= 100 ? foreign[k - 100] : batches[k];
      for (size_t i = 0; i < b->numDesignVariables(); ++i) {
        const TestDV* v = static_cast<const TestDV*>(b->designVariable(i));
        if (b->getGroupId(v) == g && v->isActive() && seen.insert(v->id).second) d += v->value.size();
      }
    }
    return d;
  }
  size_t totalDim() const {
    size_t d = 0;
    std::set<int> seen;
    for (int k : kept()) {
      const BatchSP& b = k >= 100 ? foreign[k - 100] : batches[k];
      for (size_t i = 0; i < b->numDesignVariables(); ++i) {
        const TestDV* v = static_cast<const TestDV*>(b->designVariable(i));
        if (v->isActive() && seen.insert(v->id).second) d += v->value.size();
      }
    }
    return d;
  }
  // can these batches be optimised at all?
  bool solvable(std::vector<int> ks, const OptimizationProblem* more) const {
    std::vector<const OptimizationProblem*> bs;
    for (int k : ks) bs.push_back(k >= 100 ? foreign[k - 100].get() : batches[k].get());
    if (more) bs.push_back(more);
    bool calib = false, active = false;
    for (auto* b : bs)
      for (size_t i = 0; i < b->numDesignVariables(); ++i) {
        if (b->getGroupId(b->designVariable(i)) == marg) calib = true;
        if (b->designVariable(i)->isActive()) active = true;
      }
    return calib && active;
  }
  // Jacobian transpose of the kept problem at the present values
  Eigen::MatrixXd expectedJt() const {
    const IncrementalOptimizationProblem* p = est->getProblem();
    std::map<const aslam::backend::DesignVariable*, int> col;
    int n = 0, m = 0;
    for (size_t i = 0; i < p->numDesignVariables(); ++i) {
      const TestDV* d = static_cast<const TestDV*>(p->designVariable(i));
      if (!d->isActive()) continue;
      col[d] = n; n += (int)d->value.size();
    }
    for (size_t i = 0; i < p->numErrorTerms(); ++i) m += (int)p->errorTerm(i)->dimension();
    Eigen::MatrixXd J = Eigen::MatrixXd::Zero(n, m);
    m = 0;
    for (size_t i = 0; i < p->numErrorTerms(); ++i) {
      const TestET* e = static_cast<const TestET*>(p->errorTerm(i));
      for (size_t k = 0; k < e->numDesignVariables(); ++k) {
        auto it = col.find(e->designVariable(k));
        if (it == col.end()) continue;
        Eigen::MatrixXd j = e->jacobian(k).transpose();
        J.block(it->second, m, j.rows(), j.cols()) += j;
      }
      m += (int)e->dimension();
    }
    return J;
  }
};

bool Oracle::onOptimize(aslam::backend::Optimizer2& o, aslam::backend::SolutionReturnValue& out) {
  ++optimisations;
  outcome = outcomes[c->choose((int)outcomes.size())];
  if (outcome == ThrowsAtOnce) { threw = true; throw SolverFailure(); }
  o.initialize();
  layout = o.designVariables();
  layoutProblem.clear();
  // where the calibration variables lie
  const size_t total = w->totalDim(), dim = w->groupDim(w->marg);
  size_t at = 0;
  for (auto* d : layout) {
    const bool calib = w->est->getProblem()->getGroupId(d) == w->marg;
    if (calib && at < total - dim) layoutProblem = "variable " + std::to_string(dvId(d)) + " of the calibration group precedes other variables";
    if (d->columnBase() != (int)at) layoutProblem = "column layout";
    at += d->minimalDimensions();
  }
  if (at != total) layoutProblem = "the optimiser sees " + std::to_string(at) + " active dimensions instead of " + std::to_string(total);
  auto* s = o.getSolver<aslam::backend::AslamTruncatedSvdSolver>();
  out.JStart = 128 + (double)generation;
  s->evaluateError(1, true);
  s->buildSystem(1, true);
  Eigen::VectorXd dx;
  s->solveSystem(dx);
  for (auto* d : layout) d->update(dx.data() + d->columnBase(), d->minimalDimensions());
  if (outcome == ThrowsHalfWay) { threw = true; throw SolverFailure(); }
  throwInMarginal = outcome == MarginalThrows;
  out.iterations = outcome == MaxIterations ? o.options().maxIterations : o.options().maxIterations - 1 - (generation & 1);
  out.JFinal = outcome == CostEqual ? out.JStart : outcome == CostHigher ? out.JStart + 1 : 64 - (double)generation / 1024;
  srv = out;
  return true;
}

std::string str(const std::vector<int>& v) { return "[" + join(v) + "]"; }
std::string strg(const std::vector<size_t>& v) { return "[" + join(v) + "]"; }

struct Snapshot {
  std::vector<Eigen::VectorXd> values;
  std::vector<int> kept, dvs, ets;
  std::vector<size_t> order;
  Figures fig;
};
Snapshot snap(const World& w, bool all) {
  Snapshot s;
  s.kept = w.kept();
  if (!all) return s;
  s.values = w.values(); s.dvs = w.dvSequence(); s.ets = w.etSequence();
  s.order = w.est->getProblem()->getGroupsOrdering(); s.fig = published(*w.est);
  return s;
}

void requireNoTrace(mc::Chooser& c, World& w, const Snapshot& before, const std::string& what, bool figures) {
  c.check();
  auto now = w.values();
  for (size_t i = 0; i < now.size(); ++i)
    MC_REQUIRE(same(now[i], before.values[i]), what << ": design variable " << i << " is left at " << show(now[i]) << " instead of " << show(before.values[i]));
  MC_REQUIRE(w.kept() == before.kept, what << ": the kept batches are " << str(w.kept()) << " instead of " << str(before.kept));
  MC_REQUIRE(w.est->getNumBatches() == before.kept.size(), what << ": " << w.est->getNumBatches() << " batches are reported, " << before.kept.size() << " are kept");
  MC_REQUIRE(w.dvSequence() == before.dvs, what << ": the design variables of the problem are " << str(w.dvSequence()) << " instead of " << str(before.dvs));
  MC_REQUIRE(w.etSequence() == before.ets, what << ": the error terms of the problem are " << str(w.etSequence()) << " instead of " << str(before.ets));
  MC_REQUIRE(w.est->getProblem()->getGroupsOrdering() == before.order, what << ": the groups order is " << strg(w.est->getProblem()->getGroupsOrdering()) << " instead of " << strg(before.order));
  if (figures) {
    const std::string d = differs(published(*w.est), before.fig);
    MC_REQUIRE(d.empty(), what << ": published figure changed: " << d);
  }
}
void requireSolverRestored(World& w, const std::string& what) {
  if (w.est->getNumBatches() == 0) return;
  Eigen::MatrixXd want = w.expectedJt(), got = w.est->getJacobianTranspose().toDense();
  MC_REQUIRE(same(got, want), what << ": the Jacobian transpose is " << show(got) << ", the kept problem has " << show(want));
  const IncrementalOptimizationProblem* p = w.est->getProblem();
  int block = 0, col = 0;
  for (size_t i = 0; i < p->numDesignVariables(); ++i) {
    const auto* d = p->designVariable(i);
    if (!d->isActive()) continue;
    MC_REQUIRE(d->blockIndex() == block && d->columnBase() == col, what << ": variable " << dvId(d) << " is placed at block " << d->blockIndex() << ", column "
               << d->columnBase() << " instead of block " << block << ", column " << col);
    ++block; col += d->minimalDimensions();
  }
  size_t row = 0;
  for (size_t i = 0; i < p->numErrorTerms(); ++i) {
    const auto* e = p->errorTerm(i);
    MC_REQUIRE(e->rowBase() == row, what << ": error term " << etId(e) << " is placed at row " << e->rowBase() << " instead of " << row);
    row += e->dimension();
  }
}

Figures expectedFigures(const World& w, double gain, bool memory) {
  const Oracle& o = w.oracle;
  Figures f;
  f.gain = gain; f.svdTol = o.marginal.svdTolerance; f.qrTol = o.marginal.qrTolerance;
  f.j0 = o.srv.JStart; f.j1 = o.srv.JFinal;
  f.rankTheta = o.marginal.svdRank; f.defTheta = o.marginal.svdRankDeficiency; f.rankPsi = o.marginal.qrRank; f.defPsi = o.marginal.qrRankDeficiency;
  f.nobs = o.marginal.nullSpace; f.obs = o.marginal.rowSpace; f.cov = o.marginal.covariance; f.covObs = o.marginal.rowSpaceCovariance; f.sv = o.marginal.singularValues;
  if (w.scaling) { f.nobsS = o.scaled.nullSpace; f.obsS = o.scaled.rowSpace; f.covS = o.scaled.covariance; f.covObsS = o.scaled.rowSpaceCovariance; f.svS = o.scaled.singularValues; }
  else { f.svS = Eigen::VectorXd(); }
  if (memory) { f.flops = o.marginal.numFlops; f.peak = o.marginal.peakMemory; f.mem = o.marginal.memory; }
  return f;
}

void checkReported(mc::Chooser& c, World& w, const Ret& r, double gain, const std::string& what) {
  c.check();
  std::string d = differs(returned(r), expectedFigures(w, gain, false), false);
  MC_REQUIRE(d.empty(), what << ": returned figure is not the one of this optimisation: " << d);
  MC_REQUIRE(r.numIterations == (size_t)w.oracle.srv.iterations, what << ": " << r.numIterations << " iterations returned, " << w.oracle.srv.iterations << " done");
  MC_REQUIRE(r.elapsedTime >= 0 && r.elapsedTime < 600, what << ": elapsed time " << r.elapsedTime);
}
void checkPublished(mc::Chooser& c, World& w, double gain, const std::string& what) {
  c.check();
  std::string d = differs(published(*w.est), expectedFigures(w, gain, true));
  MC_REQUIRE(d.empty(), what << ": published figure is not the one of the kept system: " << d);
}
void checkMarginal(mc::Chooser& c, World& w, size_t total, size_t dim, const std::string& what) {
  c.check();
  MC_REQUIRE(w.oracle.layoutProblem.empty(), what << ": " << w.oracle.layoutProblem);
  MC_REQUIRE(w.oracle.solveSplit == (std::ptrdiff_t)(total - dim), what << ": the system was split at column " << w.oracle.solveSplit << ", " << total << " active dimensions of which "
             << dim << " belong to the calibration group");
  MC_REQUIRE(w.oracle.marginalSplit == (std::ptrdiff_t)(total - dim), what << ": the marginal system was split at column " << w.oracle.marginalSplit << ", " << total
             << " active dimensions of which " << dim << " belong to the calibration group");
}

void run(mc::Chooser& c, const Focus asked, const bool large = false) {
  World w;
  const bool th = mc::config().thorough();
  // the acceptance rule, with the thresholds being changed between the requests
  const bool reconfigure = asked == Reconfigured;
  const Focus focus = reconfigure ? Acceptance : asked;
  const int topology = large ? 3 : c.choose(reconfigure && !th ? 1 : 3);
  w.checkValidity = (focus == Acceptance || focus == Failures || focus == Rejection) ? c.flip() : false;
  const int pattern = large ? c.choose(3) : 0;
  w.scaling = (focus == Published) ? c.flip() : (focus == Rejection || focus == Failures) ? topology != 0 : false;
  const double deltas[] = {0.25, 0.0, -0.5};
  w.delta = large ? 0.25 : reconfigure ? deltas[2 * c.choose(2)] : focus != Acceptance ? 0.25 : (w.checkValidity && !th) ? deltas[2 * c.choose(2)] : deltas[c.choose(3)];
  const int ctor = large ? pattern : !th ? topology : (focus == Rejection || focus == Failures) ? topology : c.choose(3);
  c.note("");
  w.build(topology);
  w.make(ctor);
  w.oracle.c = &c;
  Oracle& o = w.oracle;
  switch (focus) {
    case Acceptance: if (w.checkValidity || th) o.outcomes = {Converged, MaxIterations, CostEqual, CostHigher}; else o.outcomes = {Converged, CostHigher}; o.ranks = 3; o.logs = 4;
      if (reconfigure) { o.outcomes = {Converged, MaxIterations, CostHigher}; o.ranks = 2; o.logs = 3; }
      break;
    case Rejection: o.outcomes = {Converged, MaxIterations, CostHigher}; o.ranks = 2; o.logs = 3; break;
    case Published: o.outcomes = {Converged}; o.ranks = 2; o.logs = 3; break;
    case Marginal: o.outcomes = {Converged}; o.ranks = 1; o.logs = 2; break;
    case Failures: o.outcomes = {Converged, ThrowsAtOnce, ThrowsHalfWay, MarginalThrows, MaxIterations}; o.ranks = 2; o.logs = 2; break;
  }
  if (large) {
    // what is there when the requests below begin
    const auto outcomes = o.outcomes; const int ranks = o.ranks, logs = o.logs;
    o.outcomes = {Converged}; o.ranks = o.logs = 1;
    std::vector<int> want;
    for (int b = 0; b < (int)w.batches.size(); ++b) {
      const bool keep = b == 0 || pattern == 0 || (pattern == 1 ? b % 3 != 2 : b < 10);
      Ret r = w.est->addBatch(w.batches[b], keep);
      if (r.batchAccepted) { w.log = o.marginal.svLog2Sum; w.rank = o.marginal.svdRank; }
      MC_REQUIRE(r.batchAccepted == keep, "batch " << b << " of many: " << (keep ? "not accepted although forced" : "accepted although it adds nothing"));
      if (keep) want.push_back(b);
    }
    if (c.fresh()) MC_REQUIRE(w.kept() == want, "after adding many batches: the kept batches are " << str(w.kept()) << " instead of " << str(want));
    o.outcomes = outcomes; o.ranks = ranks; o.logs = std::min(logs, 3);
    if (o.outcomes.size() > 3) o.outcomes.resize(focus == Failures ? 4 : 2);
    c.trace([&](std::ostream& os) { os << "kept so far: " << str(want) << " of " << w.batches.size(); });
  }
  const int depth = large ? (th ? 3 : 2) : 60;  // 60 is never reached: the exploration ends when no new state is reachable
  // kinds of the latest requests: part of the canonical state, so that something
  // hidden that a request leaves behind is not matched away
  const size_t memory = (focus == Acceptance ? 1 : 2) + (th ? 1 : 0);
  std::vector<std::string> recent;
  std::string last = "-";
  for (int d = 0; d < depth; ++d) {
    // the requests that make sense now
    struct Op { int kind, a; bool force; };
    std::vector<Op> ops;
    std::vector<int> kept = w.kept();
    for (int b = 0; b < (int)w.batches.size(); ++b)
      if (!std::count(kept.begin(), kept.end(), b)) { ops.push_back({0, b, false}); ops.push_back({0, b, true}); }
    for (int i = 0; i < (int)kept.size(); ++i) { ops.push_back({1, i, false}); ops.push_back({2, i, false}); }
    if (!kept.empty()) ops.push_back({3, 0, false});
    if (focus == Failures || focus == Rejection) {
      if (!kept.empty()) {
        ops.push_back({4, kept[0], false});             // once more the same batch
        for (int f = 0; f < (int)w.foreign.size(); ++f) ops.push_back({5, f, true});
      }
      ops.push_back({6, 0, true});                      // no batch at all
      ops.push_back({7, 0, false});                     // index out of range
      ops.push_back({8, 0, false});                     // a batch that is not there
    }
    if (focus == Marginal || (focus == Rejection && th)) for (int v = 0; v < (int)w.dvs.size() && v < 4; ++v) ops.push_back({9, v, false});
    if (focus == Published) ops.push_back({10, 0, false});
    if (reconfigure) for (int k = 0; k < 3; ++k) ops.push_back({11, k, false});
    if (large) {
      std::vector<Op> some;
      int adds = 0;
      for (auto& x : ops) {
        if (x.kind == 0 && adds++ >= 4) continue;
        if ((x.kind == 1 || x.kind == 2) && x.a != 0 && x.a != (int)kept.size() - 1 && x.a != (int)kept.size() / 2) continue;
        some.push_back(x);
      }
      ops = some;
    }
    const Op op = ops[c.choose((int)ops.size())];
    struct { mc::Chooser& c; operator bool() const { return c.fresh(); } } fresh{c};  // asked after the request and all answers
    const Snapshot before = snap(w, focus != Acceptance && focus != Marginal);
    o.optimisations = 0;
    Ret r; r.batchAccepted = false;
    Result res = Done;
    std::string err, what;
    const double oldLog = w.log; const std::ptrdiff_t oldRank = w.rank;
    o.throwInMarginal = o.threw = false;
    c.step();
    switch (op.kind) {
      case 0: {
        what = std::string("adding batch ") + std::to_string(op.a) + (op.force ? " by force" : "");
        res = attempt([&] { r = w.est->addBatch(w.batches[op.a], op.force); }, &err);
        c.trace([&](std::ostream& os) { os << what << ": " << (res == Refused ? "refused (" + err + ")" : r.batchAccepted ? "accepted" : "rejected")
            << " [information " << oldLog << " -> " << o.marginal.svLog2Sum << ", rank " << oldRank << " -> " << o.marginal.svdRank << ", outcome " << o.outcome << "]"; });
        if (res == Refused) {
          if (focus == Failures && fresh) {
            requireNoTrace(c, w, before, what + " (which failed)", true);
            if (o.outcome != Converged || true) requireSolverRestored(w, what + " (which failed)");
          }
          MC_REQUIRE(o.threw || !w.solvable(kept, w.batches[op.a].get()), what << " fails: " << err);
          if (focus != Failures) return;  // a failure no property but this one speaks about
          last = "failed";
          break;
        }
        const double gain = 0.5 * (o.marginal.svLog2Sum - oldLog);
        const bool valid = !w.checkValidity || !(o.srv.iterations == w.maxIterations || o.srv.JFinal >= o.srv.JStart);
        const bool want = op.force || (valid && (gain > w.delta || o.marginal.svdRank > oldRank));
        if (focus == Acceptance && fresh) {
          c.check();
          MC_REQUIRE(r.batchAccepted == want, what << ": " << (r.batchAccepted ? "accepted" : "rejected") << " although the information gain is " << gain << " (threshold " << w.delta
                     << "), the rank goes from " << oldRank << " to " << o.marginal.svdRank << ", the solution is " << (valid ? "valid" : "invalid") << (w.checkValidity ? "" : " (not checked)"));
          MC_REQUIRE(r.informationGain == gain, what << ": information gain reported as " << r.informationGain << ", but the information went from " << oldLog << " to " << o.marginal.svLog2Sum);
          MC_REQUIRE((w.kept().size() == before.kept.size() + 1) == r.batchAccepted, what << ": " << (r.batchAccepted ? "accepted but not kept" : "rejected but kept"));
          MC_REQUIRE(w.est->getNumBatches() == w.kept().size(), what << ": " << w.est->getNumBatches() << " batches reported");
        }
        if (r.batchAccepted) { w.log = o.marginal.svLog2Sum; w.rank = o.marginal.svdRank; }
        if (focus == Rejection && fresh && !r.batchAccepted) {
          requireNoTrace(c, w, before, what + " (rejected)", true);
          requireSolverRestored(w, what + " (rejected)");
        }
        if (focus == Rejection && fresh && r.batchAccepted) {
          c.check();
          std::vector<int> want = before.kept; want.push_back(op.a);
          MC_REQUIRE(w.kept() == want, what << ": the kept batches are " << str(w.kept()) << " instead of " << str(want));
          for (auto* v : o.layout) {
            const TestDV* t = static_cast<const TestDV*>(v);
            Eigen::VectorXd e = before.values[t->id].array() + (o.generation - 1);
            MC_REQUIRE(same(t->value, e), what << " (accepted): design variable " << t->id << " is at " << show(t->value) << ", the optimiser left it at " << show(e));
          }
        }
        if (focus == Published && fresh) {
          checkReported(c, w, r, gain, what);
          if (r.batchAccepted) checkPublished(c, w, gain, what);
          else {
            std::string df = differs(published(*w.est), before.fig);
            MC_REQUIRE(df.empty(), what << " (rejected): published figure changed: " << df);
          }
        }
        if (focus == Marginal && fresh && r.batchAccepted) checkMarginal(c, w, w.totalDim(), w.groupDim(w.marg), what);
        if (focus == Marginal && fresh && !r.batchAccepted) MC_REQUIRE(o.layoutProblem.empty(), what << ": " << o.layoutProblem);
        last = r.batchAccepted ? (op.force ? "forced" : "accepted") : "rejected";
        break;
      }
      case 1: case 2: {
        const int b = kept[op.a];
        what = std::string("removing batch ") + std::to_string(b) + (op.kind == 1 ? " by its index" : "");
        const BatchSP sp = b >= 100 ? w.foreign[b - 100] : w.batches[b];
        res = attempt([&] { if (op.kind == 1) w.est->removeBatch((size_t)op.a); else w.est->removeBatch(sp); }, &err);
        c.trace([&](std::ostream& os) { os << what << ": " << (res == Refused ? "failed (" + err + ")" : "done") << " [information " << oldLog << " -> " << o.marginal.svLog2Sum << "]"; });
        std::vector<int> want = kept; want.erase(want.begin() + op.a);
        if (fresh) {
          c.check();
          MC_REQUIRE(w.kept() == want, what << ": the kept batches are " << str(w.kept()) << " instead of " << str(want));
        }
        MC_REQUIRE(res == Done || o.threw || (!want.empty() && !w.solvable(want, nullptr)), what << " fails: " << err);
        if (res == Refused) return;  // nothing is promised about a failing optimisation here
        if (want.empty()) {
          w.log = 0; w.rank = -1;
          if ((focus == Published || focus == Failures) && fresh) {
            c.check();
            boost::shared_ptr<IncrementalEstimator> e = w.est;
            w.make(ctor);
            Figures pristine = published(*w.est);
            w.est = e;
            std::string df = differs(published(*w.est), pristine);
            MC_REQUIRE(df.empty(), what << ", the last one: published figure is not that of an empty estimator: " << df);
          }
        } else {
          w.log = o.marginal.svLog2Sum; w.rank = o.marginal.svdRank;
          if (fresh) {
            MC_REQUIRE(o.optimisations > 0, what << ": the remaining batches were not optimised again");
            if (focus == Published) checkPublished(c, w, 0.0, what);
            if (focus == Marginal) checkMarginal(c, w, w.totalDim(), w.groupDim(w.marg), what);
          }
        }
        last = "removed";
        break;
      }
      case 3: {
        what = "reoptimising";
        res = attempt([&] { r = w.est->reoptimize(); }, &err);
        c.trace([&](std::ostream& os) { os << what << ": " << (res == Refused ? "failed (" + err + ")" : "done"); });
        MC_REQUIRE(res == Done || o.threw || !w.solvable(kept, nullptr), what << " fails: " << err);
        if (res == Refused) return;
        if (fresh) {
          c.check();
          MC_REQUIRE(w.kept() == before.kept, what << " changed the kept batches");
          if (focus == Published) { checkReported(c, w, r, 0.0, what); checkPublished(c, w, 0.0, what); }
          if (focus == Marginal) checkMarginal(c, w, w.totalDim(), w.groupDim(w.marg), what);
        }
        w.log = o.marginal.svLog2Sum; w.rank = o.marginal.svdRank;
        last = "reoptimised";
        break;
      }
      case 4: case 5: case 6: {
        BatchSP b = op.kind == 4 ? (op.a >= 100 ? w.foreign[op.a - 100] : w.batches[op.a]) : op.kind == 5 ? w.foreign[op.a] : BatchSP();
        what = op.kind == 4 ? "adding a kept batch once more" : op.kind == 5 ? "adding a batch that contradicts the kept ones" : "adding no batch";
        bool conflict = op.kind != 5;
        if (op.kind == 5)
          for (size_t i = 0; i < b->numDesignVariables(); ++i) {
            const auto* v = b->designVariable(i);
            if (w.est->getProblem()->isDesignVariableInProblem(v) && w.est->getProblem()->getGroupId(v) != b->getGroupId(v)) conflict = true;
          }
        if (!conflict) { last = "skip"; break; }
        res = attempt([&] { w.est->addBatch(b, op.force); }, &err);
        c.trace([&](std::ostream& os) { os << what << ": " << (res == Refused ? "refused (" + err + ")" : "done"); });
        if (fresh) {
          MC_REQUIRE(res == Refused, what << " is not refused");
          requireNoTrace(c, w, before, what, true);
        }
        last = "refused";
        break;
      }
      case 7: {
        what = "removing a batch by an index out of range";
        const size_t idx[] = {kept.size(), (size_t)1 << 60, (size_t)-1};
        const size_t k = idx[c.choose(3)];
        res = attempt([&] { w.est->removeBatch(k); }, &err);
        c.trace([&](std::ostream& os) { os << what << " " << k << ": " << (res == Refused ? "refused (" + err + ")" : "done"); });
        if (fresh) {
          MC_REQUIRE(res == Refused, what << " is not refused");
          requireNoTrace(c, w, before, what, true);
        }
        last = "refused";
        break;
      }
      case 8: {
        what = "removing a batch that is not there";
        int b = -1;
        for (int i = 0; i < (int)w.batches.size(); ++i) if (!std::count(kept.begin(), kept.end(), i)) b = i;
        if (b < 0) { last = "skip"; break; }
        res = attempt([&] { w.est->removeBatch(w.batches[b]); }, &err);
        c.trace([&](std::ostream& os) { os << what << ": " << (res == Refused ? "refused (" + err + ")" : "done"); });
        if (fresh) requireNoTrace(c, w, before, what, true);
        last = "ignored";
        break;
      }
      case 9: {
        TestDV& v = *w.dvs[op.a];
        v.setActive(!v.isActive());
        c.trace([&](std::ostream& os) { os << "variable " << op.a << (v.isActive() ? " activated" : " deactivated"); });
        last = "toggled";
        break;
      }
    }
    if (op.kind == 10) {
      w.scaling = !w.scaling;
      w.est->getLinearSolverOptions().columnScaling = w.scaling;
      what = w.scaling ? "column scaling switched on" : "column scaling switched off";
      if (fresh) requireNoTrace(c, w, before, what, true);
    }
    if (op.kind == 11) {
      if (op.a == 0) w.est->getOptions().infoGainDelta = w.delta = w.delta > 0 ? -0.5 : 0.25;
      if (op.a == 1) w.est->getOptions().checkValidity = w.checkValidity = !w.checkValidity;
      if (op.a == 2) w.est->getOptimizerOptions().maxIterations = w.maxIterations = w.maxIterations == 7 ? 5 : 7;
      what = op.a == 0 ? "threshold changed" : op.a == 1 ? "validity checking changed" : "iteration limit changed";
      if (fresh) MC_REQUIRE(w.est->getOptions().infoGainDelta == w.delta && w.est->getOptions().checkValidity == w.checkValidity && w.est->getOptimizerOptions().maxIterations == w.maxIterations, what << ": options read back differently");
    }
    if (op.kind >= 10) { c.trace([&](std::ostream& os) { os << what; }); last = "options"; }
    recent.push_back(last);
    if (recent.size() > memory) recent.erase(recent.begin());
    if (!fresh) continue;
    c.outcome(what + "|" + last + "|" + str(w.kept()) + "|" + (err.empty() ? "" : "!"));
    std::ostringstream canon;
    canon << topology << w.checkValidity << w.scaling << w.delta << "," << w.maxIterations << "," << ctor << "|" << str(w.kept()) << strg(w.est->getProblem()->getGroupsOrdering())
          << str(w.dvSequence()) << "|" << w.log << "," << w.rank << "|" << join(recent) << "|";
    for (auto& v : w.dvs) canon << v->isActive();
    if (large) c.state("large" + std::to_string(pattern) + canon.str(), depth - 1 - d); else c.reach(canon.str());
  }
}

mc::Register e01("E01", "acceptance", [](mc::Chooser& c) { run(c, Acceptance); },
    "every history of any number of requests, up to the point where no new state is reachable, add/forced add/remove/reoptimise over 3 batches x 3 topologies x 3 ways of configuring x 3 thresholds x validity checking on/off, "
    "with every answer of the optimiser (converged, iteration limit, cost equal, cost higher) x rank 0..2 x 4 information contents", 8, 3);
mc::Register e01o("E01", "reconfigured", [](mc::Chooser& c) { run(c, Reconfigured); },
    "every history of any number of requests in which the threshold, the validity checking and the iteration limit may be changed between any two requests: the values in force at the request decide", 6, 3);
mc::Register e02("E02", "rejection", [](mc::Chooser& c) { run(c, Rejection); },
    "every history of any number of requests, up to the point where no new state is reachable, with every combination of accepting and rejecting answers; after each rejection everything observable is compared with its value before the request", 6, 2);
mc::Register e03("E03", "published", [](mc::Chooser& c) { run(c, Published); },
    "every history of any number of requests, up to the point where no new state is reachable, with column scaling switched on and off at any point x 3 ways of configuring; every figure the solver answers is unique, so that each published figure is traced to the optimisation it stems from", 6, 2);
mc::Register e04("E04", "marginal", [](mc::Chooser& c) { run(c, Marginal); },
    "every history of any number of requests, up to the point where no new state is reachable, including activation and deactivation of variables between requests; the layout of every optimisation and every split index is checked", 3, 1);
mc::Register e05("E05", "failures", [](mc::Chooser& c) { run(c, Failures); },
    "every history of any number of requests, up to the point where no new state is reachable, in which every optimisation may fail at its start, half way, or in the marginal analysis, and with refused requests (no batch, same batch again, contradicting batch, bad index)", 6, 2);


const char* const kLarge = "fifteen overlapping batches in six groups, of up to six dimensions, added before, all of them kept or some rejected; then every history of 2 (thorough: 3) of the same requests and answers at the ends and in the middle";
mc::Register l1("E01", "many", [](mc::Chooser& c) { run(c, Acceptance, true); }, kLarge, 6, 3);
mc::Register l2("E02", "many", [](mc::Chooser& c) { run(c, Rejection, true); }, kLarge, 6, 3);
mc::Register l3("E03", "many", [](mc::Chooser& c) { run(c, Published, true); }, kLarge, 6, 3);
mc::Register l4("E04", "many", [](mc::Chooser& c) { run(c, Marginal, true); }, kLarge, 6, 3);
mc::Register l5("E05", "many", [](mc::Chooser& c) { run(c, Failures, true); }, kLarge, 6, 3);

}  // namespace
MC_MAIN
