// L01: the adapter between the optimiser and the truncated SVD solver.
// E06: the estimate depends on the batches kept, not on the history.
#include <mc.hpp>
#include <core_common.hpp>

#include <Eigen/Dense>
#include <aslam-tsvd-solver/aslam-tsvd-solver.h>
#include <aslam/backend/Optimizer2.hpp>
#include <aslam/calibration/core/IncrementalEstimator.h>
#include <aslam/calibration/core/IncrementalOptimizationProblem.h>
#include <aslam/calibration/core/OptimizationProblem.h>
#include <sm/BoostPropertyTree.hpp>
#include <verif_env.hpp>

using namespace aslam::calibration;
using namespace core;
typedef boost::shared_ptr<OptimizationProblem> BatchSP;

namespace {

std::string show(const Eigen::MatrixXd& m) {
  std::ostringstream os; os.precision(9); os << m.rows() << "x" << m.cols() << "[";
  for (int i = 0; i < m.size(); ++i) os << (i ? " " : "") << m.data()[i];
  os << "]"; return os.str();
}
bool same(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) {
  return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || a == b);
}

class Probe : public aslam::backend::AslamTruncatedSvdSolver {
 public:
  using aslam::backend::AslamTruncatedSvdSolver::AslamTruncatedSvdSolver;
  size_t inUse() { cholmod_l_free_work(&cholmod_); return cholmod_.memory_inuse; }
};

struct Recorder : verif::Env {
  Eigen::MatrixXd A;
  Eigen::VectorXd b;
  std::ptrdiff_t j = -99;
  int solves = 0, analyses = 0, clears = 0, n = 0;
  bool onSolve(truncated_svd_solver::TruncatedSvdSolver&, cholmod_sparse* m, cholmod_dense* r, std::ptrdiff_t jj, Eigen::VectorXd& x, verif::SvdAnswer& a) override {
    A = truncated_svd_solver::TruncatedSvdSolver::toDense(m);
    b = Eigen::Map<Eigen::VectorXd>(static_cast<double*>(r->x), r->nrow);
    j = jj; ++solves; ++n;
    x.resize(m->ncol);
    for (int i = 0; i < x.size(); ++i) x(i) = 100 * n + i;
    a.svdRank = n;
    return true;
  }
  bool onAnalyzeMarginal(truncated_svd_solver::TruncatedSvdSolver&, cholmod_sparse* m, std::ptrdiff_t jj, verif::SvdAnswer& a) override {
    A = truncated_svd_solver::TruncatedSvdSolver::toDense(m);
    j = jj; ++analyses; ++n;
    a = verif::SvdAnswer(); a.svdRank = n; a.svLog2Sum = n;
    return true;
  }
  void onClear(truncated_svd_solver::TruncatedSvdSolver&) override { ++clears; }
  ~Recorder() { verif::Env::current() = nullptr; }
};

void adapter(mc::Chooser& c) {
  std::vector<TestDVSP> dvs = {boost::make_shared<TestDV>(0, 2), boost::make_shared<TestDV>(1, 1), boost::make_shared<TestDV>(2, 3)};
  std::vector<TestETSP> ets = {
      boost::make_shared<TestET>(0, 1, std::vector<aslam::backend::DesignVariable*>{dvs[0].get(), dvs[1].get()}),
      boost::make_shared<TestET>(1, 2, std::vector<aslam::backend::DesignVariable*>{dvs[2].get()}),
      boost::make_shared<TestET>(2, 2, std::vector<aslam::backend::DesignVariable*>{dvs[2].get(), dvs[0].get()})};
  Recorder rec;
  verif::Env::current() = &rec;
  Probe s{Probe::Options()};
  const size_t idle = s.inUse();
  // model
  std::vector<int> order;   // variables in the structure
  std::vector<int> terms;
  Eigen::MatrixXd J;         // at the last build
  Eigen::VectorXd e;         // at the last evaluation
  std::ptrdiff_t split = 0;
  bool ready = false, built = false;
  auto columns = [&] { int n = 0; for (int i : order) n += (int)dvs[i]->value.size(); return n; };
  const int depth = mc::config().thorough() ? 7 : 6;
  const std::vector<std::vector<int>> orders = {{0, 1, 2}, {2, 0, 1}, {1, 2}, {0}};
  const std::vector<std::vector<int>> termSets = {{0, 1, 2}, {2, 0}, {1}};
  for (int k = 0; k < depth; ++k) {
    std::vector<int> ops = {0};
    if (ready) { ops.push_back(1); ops.push_back(2); ops.push_back(3); ops.push_back(4); }
    if (built) { ops.push_back(5); ops.push_back(6); }
    const int op = c.pick(ops);
    c.step();
    if (ready && c.nearlyFresh()) {
      Eigen::MatrixXd got = s.getJacobianTranspose().toDense();
      MC_REQUIRE(got.rows() == J.cols() && got.cols() == J.rows(), "before the last request, the Jacobian transpose has size " << got.rows() << "x" << got.cols());
      if (built) MC_REQUIRE(same(got, J.transpose()), "before the last request, the Jacobian transpose is " << show(got) << " instead of " << show(J.transpose()));
      MC_REQUIRE(s.getMargStartIndex() == split, "before the last request, the split index is " << s.getMargStartIndex());
    }
    if (op == 0) {
      order = c.pick(orders); terms = c.pick(termSets);
      std::vector<aslam::backend::DesignVariable*> dp; std::vector<aslam::backend::ErrorTerm*> ep;
      for (auto& d : dvs) d->setActive(false);
      int col = 0, row = 0, block = 0;
      for (int i : order) { dvs[i]->setActive(true); dvs[i]->setBlockIndex(block++); dvs[i]->setColumnBase(col); col += (int)dvs[i]->value.size(); dp.push_back(dvs[i].get()); }
      for (int i : terms) { ets[i]->setRowBase(row); row += (int)ets[i]->dimension(); ep.push_back(ets[i].get()); }
      const int clears = rec.clears;
      s.initMatrixStructure(dp, ep, false);
      c.trace([&](std::ostream& os) { os << "structure: variables [" << join(order) << "], error terms [" << join(terms) << "]"; });
      if (c.fresh()) {
        c.check();
        MC_REQUIRE(rec.clears > clears, "a new structure does not drop the results of the previous one");
        MC_REQUIRE(s.getSVDRank() == -1, "the results of the previous structure are still reported");
        const auto& Jt = s.getJacobianTranspose();
        MC_REQUIRE(Jt.toDense().rows() == col && Jt.toDense().cols() == row, "the Jacobian transpose does not have the size of the structure");
      }
      J = Eigen::MatrixXd::Zero(row, col); e = Eigen::VectorXd::Zero(row);
      ready = true; built = false;
      s.setMargStartIndex(0); split = 0;
    } else if (op == 1) {
      s.evaluateError(1, true);
      int row = 0;
      for (int i : terms) { e.segment(row, ets[i]->dimension()) = -ets[i]->residual(); row += (int)ets[i]->dimension(); }
      c.trace([&](std::ostream& os) { os << "evaluate the error"; });
    } else if (op == 2) {
      s.buildSystem(1 + c.choose(2), c.flip());
      J.setZero();
      int row = 0;
      for (int i : terms) {
        for (size_t v = 0; v < ets[i]->numDesignVariables(); ++v) {
          const TestDV* d = static_cast<const TestDV*>(ets[i]->designVariable(v));
          if (d->isActive()) J.block(row, d->columnBase(), ets[i]->dimension(), d->value.size()) += ets[i]->jacobian(v);
        }
        row += (int)ets[i]->dimension();
      }
      built = true;
      c.trace([&](std::ostream& os) { os << "build the system"; });
      if (c.fresh()) {
        c.check();
        Eigen::MatrixXd got = s.getJacobianTranspose().toDense();
        MC_REQUIRE(same(got, J.transpose()), "the Jacobian transpose is " << show(got) << " instead of " << show(J.transpose()));
      }
    } else if (op == 3) {
      dvs[order[c.choose((int)order.size())]]->value.array() += 1;
      c.trace([&](std::ostream& os) { os << "move a variable"; });
    } else if (op == 4) {
      split = c.choose(columns() + 1);
      s.setMargStartIndex(split);
      c.trace([&](std::ostream& os) { os << "split at column " << split; });
      if (c.fresh()) MC_REQUIRE(s.getMargStartIndex() == split, "split index not kept");
    } else if (op == 5) {
      Eigen::VectorXd dx;
      const int pre = rec.solves;
      const bool ok = s.solveSystem(dx);
      c.trace([&](std::ostream& os) { os << "solve: " << (ok ? "ok" : "failure"); });
      if (c.fresh()) {
        c.check();
        MC_REQUIRE(ok, "solving is reported as a failure");
        MC_REQUIRE(rec.solves == pre + 1, "the system is solved " << rec.solves - pre << " times");
        MC_REQUIRE(same(rec.A, J), "the matrix handed to the solver is " << show(rec.A) << " instead of " << show(J));
        MC_REQUIRE(same(rec.b, e), "the right hand side handed to the solver is " << show(rec.b) << " instead of " << show(e));
        MC_REQUIRE(rec.j == split, "the solver splits at " << rec.j << " instead of " << split);
        Eigen::VectorXd want(J.cols());
        for (int i = 0; i < want.size(); ++i) want(i) = 100 * rec.n + i;
        MC_REQUIRE(same(dx, want), "the step is " << show(dx) << " instead of " << show(want));
        MC_REQUIRE(s.getSVDRank() == rec.n, "the figures of the solution are not those of this solution");
        MC_REQUIRE(s.inUse() == idle, s.inUse() - idle << " bytes leaked while solving");
        MC_REQUIRE(same(s.getJacobianTranspose().toDense(), J.transpose()), "solving changed the Jacobian");
      }
    } else {
      const int pre = rec.analyses;
      const bool ok = s.analyzeMarginal();
      c.trace([&](std::ostream& os) { os << "analyse the marginal system: " << (ok ? "ok" : "failure"); });
      if (c.fresh()) {
        c.check();
        MC_REQUIRE(ok, "analysing is reported as a failure");
        MC_REQUIRE(rec.analyses == pre + 1, "the marginal system is analysed " << rec.analyses - pre << " times");
        MC_REQUIRE(same(rec.A, J), "the matrix handed to the analysis is " << show(rec.A) << " instead of " << show(J));
        MC_REQUIRE(rec.j == split, "the analysis splits at " << rec.j << " instead of " << split);
        MC_REQUIRE(s.getSVDRank() == rec.n && s.getSingularValuesLog2Sum() == rec.n, "the figures are not those of this analysis");
        MC_REQUIRE(s.inUse() == idle, s.inUse() - idle << " bytes leaked while analysing");
      }
    }
    if (!c.fresh()) continue;
    std::ostringstream canon;
    canon << join(order) << "|" << join(terms) << "|" << split << ready << built << "|" << op << "|";
    for (auto& d : dvs) canon << d->value.transpose() << ";";
    canon << show(J) << show(e);
    c.outcome(canon.str());
    c.state(canon.str(), depth - k);
  }
}
mc::Register l01("L01", "adapter", adapter,
    "every sequence of up to 6 (thorough: 7) of {structure (4 variable orders x 3 sets of error terms), evaluate, build, move a variable, every split index, solve, analyse}; "
    "the matrix, right hand side, split and step are compared with the dense model", 8, 4);

// the adapter on large systems
void large(mc::Chooser& c) {
  static const int sizes[][2] = {{1, 40}, {12, 20}, {40, 90}, {120, 300}};
  const auto& size = sizes[c.choose(mc::config().thorough() ? 4 : 3)];
  const int N = size[0], M = size[1], order = c.choose(3), sparse = c.choose(2), threads = 1 + 3 * c.choose(2), where = c.choose(5);
  std::vector<TestDVSP> dvs; std::vector<TestETSP> ets;
  std::vector<aslam::backend::DesignVariable*> dp; std::vector<aslam::backend::ErrorTerm*> ep;
  for (int i = 0; i < N; ++i) dvs.push_back(boost::make_shared<TestDV>(i, 1 + i * 7 % 4));
  for (int k = 0; k < M; ++k) {
    std::vector<aslam::backend::DesignVariable*> v; std::set<int> used;
    for (int j = 0; j < (sparse ? 2 : 5); ++j) { const int i = (k * 5 + j * (k + 3)) % N; if (used.insert(i).second) v.push_back(dvs[i].get()); }
    ets.push_back(boost::make_shared<TestET>(k, 1 + k % 3, v)); ep.push_back(ets.back().get());
  }
  Recorder rec; verif::Env::current() = &rec;
  Probe s{Probe::Options()};
  const size_t idle = s.inUse();
  c.step();
  for (int round = 0; round < 2; ++round) {  // and once more, with another order and other values
    dp.clear(); int rows = 0, cols = 0, block = 0;
    for (int i = 0; i < N; ++i) { const int j = (order + round) % 3 == 0 ? i : (order + round) % 3 == 1 ? N - 1 - i : (i + N / 2) % N; dp.push_back(dvs[j].get()); dvs[j]->setActive(true); dvs[j]->setBlockIndex(block++); dvs[j]->setColumnBase(cols); cols += (int)dvs[j]->value.size(); }
    for (auto& t : ets) { t->setRowBase(rows); rows += (int)t->dimension(); }
    s.initMatrixStructure(dp, ep, false);
    const std::ptrdiff_t split = where == 0 ? 0 : where == 1 ? cols : where == 2 ? cols / 2 : where == 3 ? 1 : cols - 1;
    s.setMargStartIndex(split);
    for (int pass = 0; pass < 2; ++pass) {
      s.evaluateError(1, true); s.buildSystem(threads, false);
      Eigen::VectorXd e(rows); Eigen::MatrixXd J = Eigen::MatrixXd::Zero(rows, cols); int row = 0;
      for (auto& t : ets) {
        e.segment(row, t->dimension()) = -t->residual();
        for (size_t v = 0; v < t->numDesignVariables(); ++v) { const TestDV* d = static_cast<const TestDV*>(t->designVariable(v)); J.block(row, d->columnBase(), t->dimension(), d->value.size()) += t->jacobian(v); }
        row += (int)t->dimension();
      }
      c.check();
      const std::string name = std::to_string(N) + " variables, " + std::to_string(M) + " error terms, split " + std::to_string(split) + ": ";
      MC_REQUIRE(same(s.getJacobianTranspose().toDense(), J.transpose()), name << "the Jacobian transpose is another one");
      Eigen::VectorXd dx;
      MC_REQUIRE(s.solveSystem(dx), name << "solving is reported as a failure");
      MC_REQUIRE(same(rec.A, J), name << "the matrix handed to the solver is another one");
      MC_REQUIRE(same(rec.b, e), name << "the right hand side handed to the solver is another one");
      MC_REQUIRE(rec.j == split, name << "the solver splits at " << rec.j);
      MC_REQUIRE(dx.size() == cols, name << "the step has " << dx.size() << " entries");
      for (int i = 0; i < cols; ++i) MC_REQUIRE(dx(i) == 100 * rec.n + i, name << "entry " << i << " of the step is " << dx(i));
      MC_REQUIRE(s.analyzeMarginal() && same(rec.A, J) && rec.j == split && s.getSVDRank() == rec.n, name << "the analysis is of another system");
      MC_REQUIRE(s.inUse() == idle, name << s.inUse() - idle << " bytes leaked");
      for (size_t i = 0; i < dvs.size(); i += 3) dvs[i]->value.array() += 1;
    }
    c.outcome(std::to_string(N) + " " + std::to_string(M) + " " + std::to_string(split) + " " + std::to_string(order) + std::to_string(sparse));
  }
}
mc::Register l01c("L01", "large", large, "systems of up to 40 variables and 90 error terms (thorough: 120 and 300), three orders, two densities, one or four threads, five splits, built and solved four times", 4, 2);

// options from a configuration: every subset of keys
void options(mc::Chooser& c) {
  const bool viaEstimator = c.flip();
  sm::BoostPropertyTree t;
  const std::string p = viaEstimator ? "optimizer/linearSolver/" : "";
  aslam::backend::AslamTruncatedSvdSolver::Options want;
  struct { const char* k; double v; double* f; } doubles[] = {
      {"epsNorm", 0.125, &want.epsNorm}, {"epsSVD", 0.25, &want.epsSVD}, {"epsQR", 0.5, &want.epsQR}, {"svdTol", 3.0, &want.svdTol}, {"qrTol", 7.0, &want.qrTol}};
  for (auto& d : doubles) if (c.flip()) { t.setDouble(p + d.k, d.v); *d.f = d.v; }
  const int cs = c.choose(3), vb = c.choose(3);
  if (cs) { t.setBool(p + "columnScaling", cs == 1); want.columnScaling = cs == 1; }
  if (vb) { t.setBool(p + "verbose", vb == 1); want.verbose = vb == 1; }
  c.step(); c.check();
  auto compare = [&](const aslam::backend::AslamTruncatedSvdSolver::Options& o) {
    MC_REQUIRE(o.epsNorm == want.epsNorm && o.epsSVD == want.epsSVD && o.epsQR == want.epsQR && o.svdTol == want.svdTol && o.qrTol == want.qrTol &&
               o.columnScaling == want.columnScaling && o.verbose == want.verbose,
               "options (epsNorm,epsSVD,epsQR,svdTol,qrTol,columnScaling,verbose) are " << o.epsNorm << "," << o.epsSVD << "," << o.epsQR << "," << o.svdTol << "," << o.qrTol << ","
               << o.columnScaling << "," << o.verbose << " instead of " << want.epsNorm << "," << want.epsSVD << "," << want.epsQR << "," << want.svdTol << "," << want.qrTol << ","
               << want.columnScaling << "," << want.verbose);
  };
  std::ostringstream os;
  os << viaEstimator << want.epsNorm << "," << want.epsSVD << "," << want.epsQR << "," << want.svdTol << "," << want.qrTol << want.columnScaling << want.verbose;
  c.note(os.str()); c.outcome(os.str());
  c.trace([&](std::ostream& o) { o << "configuration " << os.str(); });
  if (!viaEstimator) {
    aslam::backend::AslamTruncatedSvdSolver a(t);
    compare(a.getOptions());
    aslam::backend::AslamTruncatedSvdSolver b(want);
    compare(b.getOptions());
  } else {
    t.setInt("groupId", 3);
    IncrementalEstimator::Options io;
    const int d = c.choose(2), v = c.choose(3), w = c.choose(3);
    if (d) { t.setDouble("infoGainDelta", 0.625); io.infoGainDelta = 0.625; }
    if (v) { t.setBool("checkValidity", v == 1); io.checkValidity = v == 1; }
    if (w) { t.setBool("verbose", w == 1); io.verbose = w == 1; }
    IncrementalEstimator e(t);
    compare(e.getLinearSolverOptions());
    MC_REQUIRE(e.getMargGroupId() == 3, "calibration group read as " << e.getMargGroupId());
    MC_REQUIRE(e.getOptions().infoGainDelta == io.infoGainDelta && e.getOptions().checkValidity == io.checkValidity && e.getOptions().verbose == io.verbose,
               "estimator options (infoGainDelta,checkValidity,verbose) are " << e.getOptions().infoGainDelta << "," << e.getOptions().checkValidity << "," << e.getOptions().verbose
               << " instead of " << io.infoGainDelta << "," << io.checkValidity << "," << io.verbose);
    IncrementalEstimator e2(5, io, want);
    compare(e2.getLinearSolverOptions());
    MC_REQUIRE(e2.getMargGroupId() == 5, "calibration group kept as " << e2.getMargGroupId());
    MC_REQUIRE(e2.getOptions().infoGainDelta == io.infoGainDelta && e2.getOptions().checkValidity == io.checkValidity && e2.getOptions().verbose == io.verbose, "estimator options not kept");
  }
}
mc::Register l01b("L01", "options", options, "every subset of the configuration keys of solver and estimator, booleans in both values", 1, 1);

// ------------------------------------------------------------------- E06

class LinearTerm : public aslam::backend::ErrorTerm {
 public:
  LinearTerm(const std::vector<aslam::backend::DesignVariable*>& dvs, const std::vector<Eigen::MatrixXd>& J, const Eigen::VectorXd& z)
      : aslam::backend::ErrorTerm((int)z.size()), J(J), z(z) { setDesignVariables(dvs); }
  std::vector<Eigen::MatrixXd> J;
  Eigen::VectorXd z;
  Eigen::VectorXd residual() const {
    Eigen::VectorXd e = -z;
    for (size_t k = 0; k < J.size(); ++k) e += J[k] * static_cast<const TestDV*>(designVariable(k))->value;
    return e;
  }
 protected:
  virtual double evaluateErrorImplementation() { return residual().squaredNorm(); }
  virtual void evaluateJacobiansImplementation(aslam::backend::JacobianContainer& out) { for (size_t k = 0; k < J.size(); ++k) out.add(designVariable(k), J[k]); }
  virtual Eigen::VectorXd vsErrorImplementation() const { return residual(); }
};

void histories(mc::Chooser& c) {
  verif::Env::current() = nullptr;
  const bool th = mc::config().thorough();
  // theta (2), state variables of each batch, one of them shared by two batches
  std::vector<TestDVSP> d;
  for (int i = 0; i < 6; ++i) d.push_back(boost::make_shared<TestDV>(i, i == 0 ? 2 : 1));
  std::vector<BatchSP> batches;
  std::vector<std::vector<boost::shared_ptr<LinearTerm>>> terms;
  std::vector<std::vector<int>> vars;
  auto batch = [&](std::vector<int> v, std::vector<size_t> g, unsigned seed, int rows) {
    BatchSP b = boost::make_shared<OptimizationProblem>();
    std::vector<aslam::backend::DesignVariable*> p;
    for (size_t i = 0; i < v.size(); ++i) { b->addDesignVariable(d[v[i]], g[i]); p.push_back(d[v[i]].get()); }
    std::vector<Eigen::MatrixXd> J;
    auto next = [&] { seed = seed * 1103515245u + 12345u; return (int)((seed >> 16) % 9) - 4; };
    for (int i : v) { Eigen::MatrixXd m(rows, d[i]->value.size()); for (int k = 0; k < m.size(); ++k) m.data()[k] = next() + (k % 3) * 0.5; J.push_back(m); }
    Eigen::VectorXd z(rows); for (int k = 0; k < rows; ++k) z(k) = next();
    auto t = boost::make_shared<LinearTerm>(p, J, z);
    b->addErrorTerm(t);
    batches.push_back(b); terms.push_back({t}); vars.push_back(v);
  };
  batch({0, 1}, {1, 0}, 11, 5);
  batch({2, 0}, {0, 1}, 23, 4);
  batch({0, 3, 2}, {1, 2, 0}, 37, 6);
  batch({4, 0}, {0, 1}, 51, 5);
  IncrementalEstimator::Options o; o.infoGainDelta = 0.4; 
  const bool scaling = c.flip();
  LinearSolverOptions l; l.columnScaling = scaling;
  IncrementalEstimator::OptimizerOptions oo; oo.convergenceDeltaX = 1e-9; oo.convergenceDeltaJ = 1e-12;
  IncrementalEstimator est(1, o, l, oo);
  std::vector<int> kept;
  const int depth = th ? 14 : 9;
  for (int k = 0; k < depth; ++k) {
    std::vector<std::pair<int, int>> ops;
    for (int b = 0; b < 4; ++b) if (!std::count(kept.begin(), kept.end(), b)) { ops.push_back({0, b}); ops.push_back({1, b}); }
    for (int i = 0; i < (int)kept.size(); ++i) ops.push_back({2, i});
    if (!kept.empty()) ops.push_back({3, 0});
    auto op = c.pick(ops);
    c.step();
    std::string what;
    if (c.nearlyFresh()) { est.getNumBatches(); est.getSigma2Theta(); est.getRankTheta(); est.getRankPsi(); est.getInformationGain(); if (!kept.empty()) est.getJacobianTranspose().toDense(); }
    if (op.first < 2) {
      auto r = est.addBatch(batches[op.second], op.first == 1);
      if (r.batchAccepted) kept.push_back(op.second);
      c.trace([&](std::ostream& os) { os << (op.first ? "force " : "add ") << op.second << ": " << (r.batchAccepted ? "accepted" : "rejected"); });
    } else if (op.first == 2) {
      c.trace([&](std::ostream& os) { os << "remove " << kept[op.second]; });
      est.removeBatch((size_t)op.second);
      kept.erase(kept.begin() + op.second);
    } else {
      est.reoptimize();
      c.trace([&](std::ostream& os) { os << "reoptimise"; });
    }
    if (!c.fresh()) continue;
    std::vector<int> set = kept; std::sort(set.begin(), set.end());
    if (!kept.empty()) {
      // direct solution of the kept batches: states first, theta last
      std::map<int, int> col; int n = 0, m = 0;
      for (int b : set) { for (int v : vars[b]) if (v != 0 && !col.count(v)) { col[v] = n; n += (int)d[v]->value.size(); } }
      col[0] = n; n += 2;
      for (int b : set) m += (int)terms[b][0]->z.size();
      Eigen::MatrixXd A = Eigen::MatrixXd::Zero(m, n); Eigen::VectorXd z(m);
      m = 0;
      for (int b : set) {
        auto& t = *terms[b][0];
        for (size_t i = 0; i < t.J.size(); ++i) A.block(m, col[vars[b][i]], t.z.size(), t.J[i].cols()) = t.J[i];
        z.segment(m, t.z.size()) = t.z; m += (int)t.z.size();
      }
      Eigen::MatrixXd H = A.transpose() * A;
      Eigen::VectorXd x = H.ldlt().solve(A.transpose() * z);
      Eigen::MatrixXd cov = H.inverse().bottomRightCorner(2, 2);
      c.check();
      for (auto& kv : col) {
        Eigen::VectorXd w = x.segment(kv.second, d[kv.first]->value.size());
        MC_REQUIRE((d[kv.first]->value - w).norm() < 1e-6, "with batches [" << join(set) << "] kept, variable " << kv.first << " is estimated as " << show(d[kv.first]->value)
                   << "; these batches alone give " << show(w));
      }
      MC_REQUIRE(est.getNumBatches() == kept.size(), "number of batches");
      MC_REQUIRE(est.getRankTheta() == 2 && est.getRankThetaDeficiency() == 0, "with batches [" << join(set) << "] kept, rank " << est.getRankTheta());
      MC_REQUIRE(est.getRankPsi() == n - 2, "with batches [" << join(set) << "] kept, rank of the other variables " << est.getRankPsi() << " instead of " << n - 2);
      MC_REQUIRE(est.getSigma2Theta().rows() == 2 && (est.getSigma2Theta() - cov).norm() < 1e-6, "with batches [" << join(set) << "] kept, the covariance is " << show(est.getSigma2Theta()) << " instead of " << show(cov));
      Eigen::MatrixXd Jt = est.getJacobianTranspose().toDense();
      MC_REQUIRE(Jt.rows() == n && Jt.cols() == m, "size of the Jacobian");
      Eigen::MatrixXd inf = Jt * Jt.transpose();
      MC_REQUIRE((inf.bottomRightCorner(2, 2) - H.bottomRightCorner(2, 2)).norm() < 1e-6, "the Jacobian is not that of the kept batches");
      c.outcome(join(set));
    }
    std::ostringstream canon;
    canon << scaling << join(kept) << "|" << op.first << "|" << join(est.getProblem()->getGroupsOrdering()) << "|" << (float)est.getInformationGain();
    c.state(canon.str(), depth - k);
  }
}
// many batches, in different orders, with some of them removed again
void manyBatches(mc::Chooser& c) {
  verif::Env::current() = nullptr;
  const int B = mc::config().thorough() ? 16 : 11, S = B + 3, order = c.choose(4), scaling = c.choose(2), forced = c.choose(2);
  std::vector<TestDVSP> d;
  for (int i = 0; i <= S; ++i) d.push_back(boost::make_shared<TestDV>(i, i == 0 ? 3 : 1 + i % 2));
  std::vector<BatchSP> batches; std::vector<std::vector<boost::shared_ptr<LinearTerm>>> terms; std::vector<std::vector<int>> vars;
  unsigned seed = 5;
  auto next = [&] { seed = seed * 1103515245u + 12345u; return (int)((seed >> 16) % 9) - 4; };
  for (int b = 0; b < B; ++b) {
    std::vector<int> v = {1 + b, 0}; if (b % 3 == 1) v = {0, 1 + b, 2 + b}; if (b % 4 == 3) v = {1 + (b + 5) % S, 0, 1 + b};
    BatchSP p = boost::make_shared<OptimizationProblem>(); terms.push_back({}); vars.push_back(v);
    std::vector<aslam::backend::DesignVariable*> dp;
    for (int i : v) { p->addDesignVariable(d[i], i == 0 ? 1 : i % 3 == 0 ? 2 : 0); dp.push_back(d[i].get()); }
    for (int k = 0; k < 1 + b % 3; ++k) {
      const int rows = 7; std::vector<Eigen::MatrixXd> J; Eigen::VectorXd z(rows);
      for (int i : v) { Eigen::MatrixXd m(rows, d[i]->value.size()); for (int q = 0; q < m.size(); ++q) m.data()[q] = next() + (q % 3) * 0.5; J.push_back(m); }
      for (int q = 0; q < rows; ++q) z(q) = next();
      terms.back().push_back(boost::make_shared<LinearTerm>(dp, J, z)); p->addErrorTerm(terms.back().back());
    }
    batches.push_back(p);
  }
  IncrementalEstimator::Options o; o.infoGainDelta = 0.2;
  LinearSolverOptions l; l.columnScaling = scaling;
  IncrementalEstimator::OptimizerOptions oo; oo.convergenceDeltaX = 1e-9; oo.convergenceDeltaJ = 1e-12;
  IncrementalEstimator est(1, o, l, oo);
  std::vector<int> kept;
  auto verify = [&](const std::string& when) {
    std::vector<int> set = kept; std::sort(set.begin(), set.end());
    if (set.empty()) return;
    std::map<int, int> col; int n = 0, m = 0;
    for (int b : set) { for (int v : vars[b]) if (v != 0 && !col.count(v)) { col[v] = n; n += (int)d[v]->value.size(); } for (auto& t : terms[b]) m += (int)t->z.size(); }
    col[0] = n; n += 3;
    Eigen::MatrixXd A = Eigen::MatrixXd::Zero(m, n); Eigen::VectorXd z(m); m = 0;
    for (int b : set) for (auto& t : terms[b]) {
      for (size_t i = 0; i < t->J.size(); ++i) A.block(m, col[vars[b][i]], t->z.size(), t->J[i].cols()) = t->J[i];
      z.segment(m, t->z.size()) = t->z; m += (int)t->z.size();
    }
    const Eigen::MatrixXd H = A.transpose() * A, cov = H.inverse().bottomRightCorner(3, 3);
    const Eigen::VectorXd x = H.ldlt().solve(A.transpose() * z);
    const std::string name = when + ", with batches [" + join(set) + "] kept: ";
    c.check();
    for (auto& kv : col) MC_REQUIRE((d[kv.first]->value - x.segment(kv.second, d[kv.first]->value.size())).norm() < 1e-6, name << "variable " << kv.first << " is estimated as " << show(d[kv.first]->value) << "; these batches alone give " << show(x.segment(kv.second, d[kv.first]->value.size())));
    MC_REQUIRE(est.getNumBatches() == kept.size(), name << est.getNumBatches() << " batches");
    MC_REQUIRE(est.getRankTheta() == 3 && est.getRankThetaDeficiency() == 0 && est.getRankPsi() == n - 3, name << "ranks " << est.getRankTheta() << " and " << est.getRankPsi());
    MC_REQUIRE(est.getSigma2Theta().rows() == 3 && (est.getSigma2Theta() - cov).norm() < 1e-6, name << "the covariance is " << show(est.getSigma2Theta()) << " instead of " << show(cov));
    const Eigen::MatrixXd Jt = est.getJacobianTranspose().toDense();
    MC_REQUIRE(Jt.rows() == n && Jt.cols() == m && ((Jt * Jt.transpose()).bottomRightCorner(3, 3) - H.bottomRightCorner(3, 3)).norm() < 1e-6, name << "the Jacobian is not that of the kept batches");
    c.outcome(join(set) + "/" + std::to_string(order));
  };
  c.step();
  for (int i = 0; i < B; ++i) {
    const int b = order == 0 ? i : order == 1 ? B - 1 - i : order == 2 ? (i * 4 + 1) % B == 0 && i ? 0 : (i * (B % 3 ? 3 : 5) + 1) % B : (i % 2 ? B - 1 - i / 2 : i / 2);
    if (std::count(kept.begin(), kept.end(), b)) continue;
    const auto r = est.addBatch(batches[b], forced);
    c.trace([&](std::ostream& os) { os << (forced ? "force " : "add ") << b << ": " << (r.batchAccepted ? "accepted" : "rejected"); });
    if (r.batchAccepted) kept.push_back(b);
    verify("while adding");
  }
  for (int k = 0; k < 3; ++k) {
    if (kept.empty()) break;
    const int i = c.choose((int)kept.size() + 1);
    c.step();
    if (i == (int)kept.size()) { c.trace([&](std::ostream& os) { os << "reoptimise"; }); est.reoptimize(); }
    else {
      c.trace([&](std::ostream& os) { os << "remove " << kept[i]; });
      if (k == 1) est.removeBatch(batches[kept[i]]); else est.removeBatch((size_t)i);
      kept.erase(kept.begin() + i);
    }
    verify("after removing");
  }
}
mc::Register e06b("E06", "many", manyBatches,
    "11 (thorough: 16) linear batches with one to three error terms each, added in four orders, forced or not, with and without column scaling, and every sequence of three of {remove the i-th, reoptimise} after; the estimate is compared with the direct solution after every request", 8, 4);
mc::Register e06("E06", "histories", histories,
    "every history of up to 9 (thorough: 14) of add/forced add/remove/reoptimise over 4 linear batches sharing variables, with and without column scaling; after each request the estimate, rank, "
    "covariance and Jacobian are compared with the direct solution of the kept batches", 8, 3);

}  // namespace
MC_MAIN
