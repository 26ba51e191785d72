// K01: the calibrators of the three vehicle programs against a model of the
// window, of the batch made from it and of the predictions.
#ifndef VERIF_CALIB_COMMON_HPP
#define VERIF_CALIB_COMMON_HPP
#include <mc.hpp>

#include <functional>

#include <aslam-tsvd-solver/aslam-tsvd-solver.h>
#include <aslam/backend/Optimizer2.hpp>
#include <aslam/calibration/core/IncrementalEstimator.h>
#include <aslam/calibration/core/IncrementalOptimizationProblem.h>
#include <aslam/calibration/core/OptimizationProblem.h>
#include <sm/BoostPropertyTree.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
#include <verif_env.hpp>
#include <verif_splines.hpp>

namespace calib {
using namespace aslam::calibration;
typedef Eigen::VectorXd Vec;
typedef Eigen::MatrixXd Mat;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef aslam::backend::DesignVariable DV;
typedef sm::timing::NsecTime Time;
const Time ms = 1000000;

inline double wrap(double x) { return std::remainder(x, 2 * M_PI); }
inline M3 rotation(const V3& ypr) {
  return (Eigen::AngleAxisd(ypr(0), V3::UnitZ()) * Eigen::AngleAxisd(ypr(1), V3::UnitY()) * Eigen::AngleAxisd(ypr(2), V3::UnitX())).toRotationMatrix();
}
inline V3 angles(const M3& C) { return V3(std::atan2(C(1, 0), C(0, 0)), std::atan2(-C(2, 0), std::hypot(C(2, 1), C(2, 2))), std::atan2(C(2, 1), C(2, 2))); }
inline V3 rotationVector(const M3& C) {
  const Eigen::AngleAxisd a(C);
  return a.angle() * a.axis();
}
inline bool near(const Mat& a, const Mat& b, double tol = 1e-6) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.size(); ++i) if (!(std::fabs(a.data()[i] - b.data()[i]) <= tol * (1 + std::fabs(b.data()[i])))) return false;
  return true;
}
inline std::string show(const Mat& m) {
  std::ostringstream os; os.precision(10); os << "[";
  for (int i = 0; i < m.size(); ++i) os << (i ? " " : "") << m.data()[i];
  os << "]"; return os.str();
}

// Where the vehicle is and how it moves, from the fitted curves alone.
template <class TS, class RS> struct Path {
  boost::shared_ptr<TS> trans;
  boost::shared_ptr<RS> rot;
  V3 position(Time t) const { return trans->value(t); }
  M3 attitude(Time t) const { return sm::kinematics::quat2r(rot->value(t)); }
  // curves are straight between multiples of 0.1 ms
  Time step(Time t) const { const Time h = ms / 10; return t + h > trans->getMaxTime() ? -h : h; }
  V3 velocity(Time t) const { const Time h = step(t); return attitude(t).transpose() * (position(t + h) - position(t)) / (h * 1e-9); }
  V3 turnRate(Time t) const { const Time h = step(t); return rotationVector(attitude(t).transpose() * attitude(t + h)) / (h * 1e-9); }
  V3 velocityOf(const V3& r, Time t) const { return velocity(t) + turnRate(t).cross(r); }
};

// One expected error term.
struct Term {
  std::string name;
  std::function<Vec()> error;
  Mat covariance;
  std::vector<DV*> dvs;   // of the calibration
};

struct Oracle : verif::Env {
  mc::Chooser* c = nullptr;
  double log = 1;
  int optimisations = 0;
  bool accept = true;
  bool still = false;   // nothing moves
  int dims = 2;
  std::function<void(IncrementalOptimizationProblem&)> seen;
  Oracle() { verif::Env::current() = this; }
  ~Oracle() { verif::Env::current() = nullptr; }
  bool onOptimize(aslam::backend::Optimizer2& o, aslam::backend::SolutionReturnValue& out) override {
    ++optimisations;
    if (seen) { auto f = seen; seen = nullptr; f(dynamic_cast<IncrementalOptimizationProblem&>(*o.problem())); }
    out.iterations = 2; out.JStart = 8; out.JFinal = 4;
    o.initialize();
    if (still) return true;
    auto* s = o.getSolver<aslam::backend::AslamTruncatedSvdSolver>();
    s->evaluateError(1, true);
    s->buildSystem(1, true);
    Vec dx;
    s->solveSystem(dx);
    const double d = optimisations % 2 ? 3e-4 : -3e-4;
    for (auto* v : o.designVariables()) {
      const Vec u = Vec::Constant(v->minimalDimensions(), d);
      v->update(u.data(), (int)u.size());
    }
    return true;
  }
  bool onSolve(truncated_svd_solver::TruncatedSvdSolver&, cholmod_sparse* A, cholmod_dense*, std::ptrdiff_t, Vec& x, verif::SvdAnswer& a) override {
    x = Vec::Zero(A->ncol);
    a = answer();
    return true;
  }
  bool onAnalyzeMarginal(truncated_svd_solver::TruncatedSvdSolver&, cholmod_sparse*, std::ptrdiff_t, verif::SvdAnswer& a) override {
    a = answer();
    return true;
  }
  // a batch that must be kept adds one bit, another adds nothing
  double next() const { return accept ? log + 2 : log; }
  verif::SvdAnswer answer() const {
    verif::SvdAnswer a;
    a.svdRank = 1; a.svLog2Sum = next(); a.covariance = dims == 2 ? Mat(Mat::Identity(2, 2)) : Mat(Vec::LinSpaced(dims, next() + 1, next() + dims).asDiagonal());
    a.singularValues = Vec::Ones(2); a.matrixU = a.matrixV = Mat::Identity(2, 2);
    a.nullSpace = a.rowSpace = Mat::Zero(2, 1); a.rowSpaceCovariance = Mat::Identity(1, 1);
    return a;
  }
};

inline void estimatorConfig(sm::PropertyTree& t) {
  t.setInt("estimator/groupId", 1);
  t.setDouble("estimator/infoGainDelta", 0.5);
  t.setBool("estimator/checkValidity", false);
  t.setBool("estimator/verbose", false);
}

// The curves: through the given points at the given times, as configured.
template <class TS, class RS>
void curves(const Path<TS, RS>& p, const std::vector<Time>& times, const std::vector<V3>& r, const std::vector<M3>& C, int knots, int transOrder, int rotOrder, double transLambda, double rotLambda, size_t measurements) {
  MC_REQUIRE(p.trans && p.rot, "no spline");
  MC_REQUIRE(p.trans->times == times && p.rot->times == times, "the splines are fitted at other times");
  const double T = (times.back() - times.front()) / 1e9, rate = measurements / T;
  for (size_t i = 0; i < times.size(); ++i) {
    MC_REQUIRE(near(p.trans->control[i]->v, r[i]), "the translation spline is fitted through " << show(p.trans->control[i]->v) << " instead of " << show(r[i]));
    MC_REQUIRE(near(sm::kinematics::quat2r(p.rot->control[i]->v), C[i]), "the rotation spline is fitted through another attitude at pose " << i);
    if (i) MC_REQUIRE(p.rot->control[i]->v.dot(p.rot->control[i - 1]->v) >= -1e-9, "the rotation spline goes the long way round");
  }
  MC_REQUIRE(p.trans->order == transOrder && p.rot->order == rotOrder, "order of the splines");
  MC_REQUIRE(p.trans->lambda == transLambda && p.rot->lambda == rotLambda, "smoothing of the splines");
  MC_REQUIRE(p.trans->segments == p.rot->segments, "the splines have different numbers of segments");
  const int n = p.trans->segments;
  const double want = knots * T;
  if (std::round(rate) > knots) MC_REQUIRE(n >= want - 1e-9 && n < want + 1 + 1e-9, n << " segments for " << T << " s with " << knots << " per second");
  else MC_REQUIRE(n == (int)measurements, n << " segments for " << measurements << " measurements");
}

// What of the error term is not as expected, or nothing.
inline std::string difference(aslam::backend::ErrorTerm& e, const Term& t, const std::vector<DV*>& calibration) {
  const Vec want = t.error();
  const double sr = e.evaluateError();
  const Vec got = e.vsError();
  if (!near(got, want)) return "error " + show(got) + " instead of " + show(want);
  const Mat W = t.covariance.inverse();
  if (!near(e.vsInvR(), W)) return "weight " + show(e.vsInvR()) + " instead of " + show(W);
  if (!near(Mat::Constant(1, 1, sr), want.transpose() * W * want, 1e-5)) return "cost " + std::to_string(sr);
  if (!calibration.empty()) {
    std::set<DV*> in, all(calibration.begin(), calibration.end()), expected(t.dvs.begin(), t.dvs.end());
    for (size_t i = 0; i < e.numDesignVariables(); ++i) if (all.count(e.designVariable(i))) in.insert(e.designVariable(i));
    if (in != expected) return "depends on " + std::to_string(in.size()) + " calibration variables, or not on the right ones";
  }
  return "";
}

// A batch: its variables, groups and error terms.
template <class TS, class RS>
void batch(mc::Chooser& c, IncrementalOptimizationProblem& all, const Path<TS, RS>& p, const std::vector<DV*>& calibration, const std::function<std::vector<Term>()>& expected, const std::function<bool(DV*, double)>& mayMove) {
  c.check();
  const size_t nb = all.getNumOptimizationProblems();
  MC_REQUIRE(nb >= 1, "no batch");
  OptimizationProblem& b = *all.getOptimizationProblem(nb - 1);
  MC_REQUIRE(b.getNumGroups() == 2 && b.getGroupsOrdering() == (std::vector<size_t>{0, 1}), "groups of the batch");
  std::set<DV*> curve, in0;
  for (size_t i = 0; i < p.trans->numDesignVariables(); ++i) curve.insert(p.trans->designVariable(i));
  for (size_t i = 0; i < p.rot->numDesignVariables(); ++i) curve.insert(p.rot->designVariable(i));
  for (auto& v : b.getDesignVariablesGroup(0)) { in0.insert(v.get()); MC_REQUIRE(v->isActive(), "a variable of a spline is not estimated"); }
  MC_REQUIRE(in0 == curve && b.getDesignVariablesGroup(0).size() == curve.size(), "the first group does not hold the variables of the splines");
  std::vector<DV*> in1;
  for (auto& v : b.getDesignVariablesGroup(1)) in1.push_back(v.get());
  MC_REQUIRE(in1 == calibration, "the second group does not hold the calibration variables in order");
  const std::vector<Term> want = expected();
  MC_REQUIRE(b.numErrorTerms() == want.size(), "the batch has " << b.numErrorTerms() << " error terms instead of " << want.size());
  // the terms come in any order
  std::vector<size_t> at;
  std::vector<bool> taken(want.size(), false);
  for (size_t i = 0; i < want.size(); ++i) {
    const std::string d = taken[i] ? "another" : difference(*b.errorTerm(i), want[i], calibration);
    size_t j = i;
    if (!d.empty()) for (j = 0; j < want.size() && (taken[j] || !difference(*b.errorTerm(j), want[i], calibration).empty()); ++j) {}
    MC_REQUIRE(j < want.size(), want[i].name << ": " << d);
    at.push_back(j); taken[j] = true;
  }
  // and they follow the calibration
  for (DV* v : calibration) {
    const double d = 3e-4;
    if (!mayMove(v, d)) continue;
    const Vec u = Vec::Constant(v->minimalDimensions(), d);
    v->update(u.data(), (int)u.size());
    for (size_t i = 0; i < want.size(); ++i) {
      const std::string d = difference(*b.errorTerm(at[i]), want[i], {});
      MC_REQUIRE(d.empty(), want[i].name << " after a change of the calibration: " << d);
    }
    v->revertUpdate();
  }
}

}  // namespace calib
#endif
