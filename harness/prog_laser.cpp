// D04: the laser programs: what is simulated, what is estimated from it, what is written.
#include <programs/prog_common.hpp>
#include <aslam/backend/SparseQrLinearSystemSolver.hpp>
#include <aslam/calibration/2dlrf/ErrorTermMotion.h>
#include <aslam/calibration/2dlrf/ErrorTermObservation.h>
#include <aslam/calibration/data-structures/VectorDesignVariable.h>

int laser_offline_main(int, char**);
int laser_online_new_main(int, char**);
int laser_online_main(int, char**);
using namespace prog;
namespace {
typedef Eigen::Vector2d V2;
typedef VectorDesignVariable<3> DV3;
typedef VectorDesignVariable<2> DV2;

struct World {
  int steps, nl;
  double T, A, f;
  V3 theta, hat, x0;
  V2 lo, hi;
  V3 q; V2 r;   // variances
  std::vector<V3> u, x;
  void move() {
    double heading = 0;
    u.assign(1, V3::Zero()); x.assign(1, x0);
    auto slope = [&](int i) { return A * std::cos(2 * M_PI * f * i * T); };
    for (int i = 1; i < steps; ++i) {
      const double to = std::atan(slope(i));
      u.push_back(V3(2 * M_PI * f * (std::hypot(1., slope(i)) + std::hypot(1., slope(i - 1))) / 2, 0, (to - heading) / T));
      heading = to;
      x.push_back(next(x.back(), u.back()));
    }
  }
  V3 next(const V3& p, const V3& v) const {
    const Eigen::Rotation2Dd R(p(2));
    V3 n; n << p.head<2>() + T * (R * v.head<2>().eval()), wrap(p(2) + T * v(2));
    return n;
  }
};

// an optimiser that moves everything and remembers where
struct Watcher : verif::Env {
  const World& w;
  bool fresh;                 // batches bring new variables of their own, and leave no trace when rejected
  int size;                   // of a batch
  std::function<bool()> keep;
  std::function<verif::SvdAnswer(std::ptrdiff_t, int)> figures;
  std::vector<int> kept; int batches = 0, at = -1; bool keeping = true;
  std::map<int, V3> state, odom, u;
  std::map<std::pair<int, int>, V2> seen;
  std::vector<V2> landmark, landmark0;
  V3 theta;
  std::map<int, V3> state0; std::vector<V2> landmarkOld; V3 thetaOld;
  double log = 1;
  int moves = 0, analyses = 0;
  Watcher(const World& w_, bool fresh_, int size_) : w(w_), fresh(fresh_), size(size_) { current() = this; }
  ~Watcher() { current() = nullptr; }

  std::vector<int> steps(const std::vector<int>& b) const { std::vector<int> s; for (int x : b) for (int k = x * size; k < std::min(w.steps, (x + 1) * size); ++k) s.push_back(k); return s; }
  void move(aslam::backend::DesignVariable* d, const Vec& by) { d->update(by.data(), (int)by.size()); }
  Vec jitter(int n) { Vec v(n); for (int i = 0; i < n; ++i) v(i) = 0.02 * std::sin(17. * ++moves); return v; }

  bool onOptimize(aslam::backend::Optimizer2& o, aslam::backend::SolutionReturnValue& out) override {
    at = batches++;
    keeping = kept.empty() || !keep || keep();
    std::vector<int> use = kept; use.push_back(at);
    look(*o.problem(), steps(use));
    o.initialize();
    auto* s = o.getSolver<aslam::backend::AslamTruncatedSvdSolver>();
    if (s) { s->evaluateError(1, true); s->buildSystem(1, true); Vec dx; s->solveSystem(dx); }
    for (auto* d : o.designVariables()) MC_REQUIRE(d->isActive(), "a variable is not estimated");
    state0 = state; landmarkOld = landmark; thetaOld = theta;
    const size_t n = o.problem()->numDesignVariables() - 1 - w.nl;
    const std::vector<int> order = steps(use);
    for (size_t i = 0; i < n; ++i) {
      auto* d = dynamic_cast<DV3*>(o.problem()->designVariable(i));
      move(d, jitter(3)); state[order[i]] = d->getValue();
    }
    for (int l = 0; l < w.nl; ++l) {
      auto* d = dynamic_cast<DV2*>(o.problem()->designVariable(n + l));
      Vec by = jitter(2);
      // all of them turn at first, which aligning must undo
      if (at == 0) by += Eigen::Rotation2Dd(0.3) * landmark[l] + V2(2, -1) - landmark[l];
      move(d, by); landmark[l] = d->getValue();
    }
    auto* d = dynamic_cast<DV3*>(o.problem()->designVariable(n + w.nl));
    move(d, jitter(3)); theta = d->getValue();
    if (keeping) kept.push_back(at);
    else if (fresh) { state = state0; landmark = landmarkOld; theta = thetaOld; }
    if (keeping) log += 2;
    out.iterations = 2; out.JStart = 8; out.JFinal = 4;
    return true;
  }
  // every error term, on the right variables, with the right numbers
  void look(aslam::backend::OptimizationProblemBase& p, const std::vector<int>& order) {
    const size_t n = order.size();
    MC_REQUIRE(p.numDesignVariables() == n + w.nl + 1, "batch " << at << ": " << p.numDesignVariables() << " variables for " << n << " states, " << w.nl << " landmarks and the calibration");
    std::map<const aslam::backend::DesignVariable*, int> index;
    std::vector<V3> x; std::vector<V2> l; V3 th;
    for (size_t i = 0; i < p.numDesignVariables(); ++i) {
      index[p.designVariable(i)] = (int)i;
      if (i < n || i == n + w.nl) { auto* d = dynamic_cast<DV3*>(p.designVariable(i)); MC_REQUIRE(d, "variable " << i << " is no " << (i < n ? "state" : "calibration")); if (i < n) x.push_back(d->getValue()); else th = d->getValue(); }
      else { auto* d = dynamic_cast<DV2*>(p.designVariable(i)); MC_REQUIRE(d, "variable " << i << " is no landmark"); l.push_back(d->getValue()); }
    }
    MC_REQUIRE(index.size() == p.numDesignVariables(), "a variable is there twice");
    for (size_t i = 0; i < n; ++i) {
      const int k = order[i];
      if (!state.count(k)) { odom[k] = x[i]; state[k] = x[i]; if (k == 0) MC_REQUIRE(near(x[i], w.x0, 1e-9), "the first state is " << show(x[i])); }
      MC_REQUIRE(state[k] == x[i], "batch " << at << ": state " << k << " is " << show(x[i]) << " and was " << show(state[k]));
    }
    if (at == 0) { landmark = l; theta = th; MC_REQUIRE(near(th, w.hat, 1e-12), "the calibration starts from " << show(th)); }
    for (int i = 0; i < w.nl; ++i) MC_REQUIRE(l[i] == landmark[i], "batch " << at << ": landmark " << i << " is " << show(l[i]) << " and was " << show(landmark[i]));
    MC_REQUIRE(theta == th, "batch " << at << ": the calibration is " << show(th) << " and was " << show(theta));
    std::map<int, int> motions; std::map<std::pair<int, int>, int> sights;
    for (size_t i = 0; i < p.numErrorTerms(); ++i) {
      auto* e = p.errorTerm(i);
      if (auto* m = dynamic_cast<ErrorTermMotion*>(e)) {
        MC_REQUIRE(e->numDesignVariables() == 2, "a motion with " << e->numDesignVariables() << " variables");
        MC_REQUIRE(index.count(e->designVariable(0)) && index.count(e->designVariable(1)), "a motion of a variable that is not there");
        const int a = index[e->designVariable(0)], b = index[e->designVariable(1)], to = std::max(a, b);
        MC_REQUIRE(to < (int)n && std::abs(a - b) == 1 && order[to] % size, "a motion from variable " << a << " to " << b);
        const int k = order[to];
        ++motions[k];
        const V3 in = m->getInput();
        if (!u.count(k)) {
          u[k] = in;
          // odometry is the motion that was measured
          MC_REQUIRE(near(V3(odom[k] - w.next(odom[k - 1], in)).head<2>(), V2::Zero(), 1e-9) && std::fabs(wrap(odom[k](2) - w.next(odom[k - 1], in)(2))) < 1e-9, "odometry moves from " << show(odom[k - 1]) << " to " << show(odom[k]) << " with " << show(in));
          const double cost = e->evaluateError();
          MC_REQUIRE(cost * w.q.minCoeff() < 1e-12, "the error of motion " << k << " is " << cost << " to begin with");
        }
        MC_REQUIRE(in == u[k], "motion " << k << " changes");
        MC_REQUIRE(m->getTimestep() == w.T && m->getCovariance().diagonal() == w.q && m->getCovariance().squaredNorm() == w.q.squaredNorm(), "motion " << k << ": time step or covariance");
      } else if (auto* s = dynamic_cast<ErrorTermObservation*>(e)) {
        int k = -1, j = -1, calibration = 0;
        MC_REQUIRE(e->numDesignVariables() == 3, "an observation of " << e->numDesignVariables() << " variables");
        for (int a = 0; a < 3; ++a) {
          MC_REQUIRE(index.count(e->designVariable(a)), "an observation of a variable that is not there");
          const int v = index[e->designVariable(a)];
          if (v < (int)n) k = order[v]; else if (v < (int)n + w.nl) j = v - (int)n; else ++calibration;
        }
        MC_REQUIRE(k >= 0 && j >= 0 && calibration == 1, "an observation without state, landmark or calibration");
        ++sights[{k, j}];
        const V2 rb(s->getRange(), s->getBearing());
        if (!seen.count({k, j})) seen[{k, j}] = rb;
        const V2 before = seen[{k, j}];
        MC_REQUIRE(rb == before, "the observation of landmark " << j << " in step " << k << " changes");
        MC_REQUIRE(s->getCovariance().diagonal() == w.r && s->getCovariance().squaredNorm() == w.r.squaredNorm(), "covariance of an observation");
      } else MC_FAIL("an error term that is neither motion nor observation");
    }
    for (int k : order) {
      const int want = k % size ? 1 : 0;
      MC_REQUIRE(motions[k] == want, "batch " << at << ": " << motions[k] << " motions to step " << k);
      for (int j = 0; j < w.nl; ++j) { const std::pair<int, int> kj(k, j); MC_REQUIRE(sights[kj] == want, "batch " << at << ": landmark " << j << " is observed " << sights[kj] << " times in step " << k); }
    }
    if (at == 0) {
      // landmarks are where they are first seen from
      for (int j = 0; j < w.nl; ++j) {
        V2 want = V2::Zero();
        for (int k : order) {
          if (k == 0 || !(seen[std::pair<int, int>(k, j)](0) > 0)) continue;
          const V2 rb = seen[std::pair<int, int>(k, j)];
          const double a = odom[k](2);
          want = odom[k].head<2>() + Eigen::Rotation2Dd(a) * V2(w.hat.head<2>() + rb(0) * V2(std::cos(rb(1) + w.hat(2)), std::sin(rb(1) + w.hat(2))));
          break;
        }
        if (want != V2::Zero()) MC_REQUIRE(near(landmark[j], want, 1e-9), "landmark " << j << " starts at " << show(landmark[j]) << " instead of " << show(want));
      }
    }
  }
  verif::SvdAnswer answer(std::ptrdiff_t j, int cols) {
    verif::SvdAnswer a;
    a.svdRank = 3; a.svdRankDeficiency = 0; a.qrRank = j; a.qrRankDeficiency = 41 + analyses; a.svLog2Sum = keeping ? log : log; a.svdTolerance = 0.5; a.qrTolerance = 0.25; a.numFlops = 71; a.memory = 3 << 20; a.peakMemory = 5 << 20;
    a.singularValues = V3(11 + analyses, 7, 3); a.matrixU = a.matrixV = Mat::Identity(3, 3); a.covariance = Mat(V3(0.125, 0.25, 0.5 + analyses).asDiagonal());
    a.nullSpace = Mat::Zero(3, 0); a.rowSpace = Mat::Identity(3, 3); a.rowSpaceCovariance = Mat::Identity(3, 3);
    MC_REQUIRE(cols - j == 3, "the analysis splits " << cols << " columns at " << j);
    return a;
  }
  bool onSolve(truncated_svd_solver::TruncatedSvdSolver&, cholmod_sparse* A, cholmod_dense*, std::ptrdiff_t j, Vec& x, verif::SvdAnswer& a) override { x = Vec::Zero(A->ncol); a = answer(j, (int)A->ncol); return true; }
  bool onAnalyzeMarginal(truncated_svd_solver::TruncatedSvdSolver&, cholmod_sparse* A, std::ptrdiff_t j, verif::SvdAnswer& a) override { ++analyses; a = answer(j, (int)A->ncol); return true; }
  bool onMarginalize(const cholmod_sparse* Jt, std::ptrdiff_t j, verif::SvdAnswer& a) override {
    ++analyses;
    MC_REQUIRE((int)Jt->nrow - j == 3 && (int)Jt->nrow == 3 * (int)state_count() + 2 * w.nl + 3, "the analysis splits " << Jt->nrow << " columns at " << j);
    a = figures(j, (int)Jt->nrow);
    return true;
  }
  size_t state_count() const { std::vector<int> use = kept; if (!keeping) use.push_back(at); return steps(use).size(); }
};

Table rows(const std::vector<V2>& x) { Table t; for (auto& v : x) t.push_back({v(0), v(1)}); return t; }
const double digits = 2e-5;
double said(const std::string& text, const std::string& what) {
  const size_t p = text.rfind(what);
  MC_REQUIRE(p != std::string::npos, "nothing is said about '" << what << "'");
  return std::strtod(text.c_str() + p + what.size(), nullptr);
}
std::vector<double> numbers(const std::string& text, const std::string& what, int n) {
  const size_t p = text.rfind(what);
  MC_REQUIRE(p != std::string::npos, "nothing is said about '" << what << "'");
  std::istringstream is(text.substr(p + what.size()));
  std::vector<double> v(n, NAN);
  for (double& x : v) is >> x;
  return v;
}
bool close(const std::vector<double>& a, const Vec& b) { for (int i = 0; i < b.size(); ++i) if (!(std::fabs(a[i] - b(i)) <= digits * (1 + std::fabs(b(i))))) return false; return true; }

// what every program writes, and what was simulated for it
void judge(const World& w, Watcher& env, bool estimates) {
  Table t;
  for (auto& x : w.x) t.push_back({x(0), x(1), x(2)});
  same("x_true.txt", t, digits, {2});
  t = table("x_odom.txt");
  MC_REQUIRE((int)t.size() == w.steps, "x_odom.txt has " << t.size() << " lines");
  for (auto& o : env.odom) MC_REQUIRE(t[o.first].size() == 3 && near(V2(t[o.first][0], t[o.first][1]), o.second.head<2>(), digits) && std::fabs(wrap(t[o.first][2] - o.second(2))) < digits * 4, "x_odom.txt, line " << o.first + 1 << ": " << show(t[o.first]) << " instead of " << calib::show(o.second));
  MC_REQUIRE(exists("l.txt"), "l.txt is not written");
  const Table lt = table("l.txt");
  MC_REQUIRE((int)lt.size() == w.nl, "l.txt has " << lt.size() << " lines");
  std::vector<V2> l;
  for (auto& r : lt) { MC_REQUIRE(r.size() == 2, "l.txt"); l.push_back(V2(r[0], r[1])); MC_REQUIRE((l.back().array() >= w.lo.array() - digits).all() && (l.back().array() <= w.hi.array() + digits).all(), "a landmark at " << calib::show(l.back())); }
  // noise: of its size, on everything
  V3 s3 = V3::Zero(); V2 s2 = V2::Zero();
  for (auto& m : env.u) {
    const V3 d = (m.second - w.u[m.first]).cwiseAbs().cwiseQuotient(w.q.cwiseSqrt());
    MC_REQUIRE(d.maxCoeff() < 8 || (m.second - w.u[m.first]).norm() < 1e-9, "the motion of step " << m.first << " is measured as " << calib::show(m.second) << ", being " << calib::show(w.u[m.first]));
    s3 += d.cwiseAbs2();
  }
  for (auto& o : env.seen) {
    const V3& x = w.x[o.first.first];
    const V2 d = l[o.first.second] - (x.head<2>() + Eigen::Rotation2Dd(x(2)) * V2(w.theta.head<2>()));
    const V2 e(o.second(0) - d.norm(), wrap(o.second(1) - (std::atan2(d(1), d(0)) - x(2) - w.theta(2))));
    // l.txt has six digits
    const double slack = 1e-3 + 1e-4 / std::max(d.norm(), 1e-3);
    MC_REQUIRE(std::fabs(e(0)) < 8 * std::sqrt(w.r(0)) + 1e-3 && std::fabs(e(1)) < 8 * std::sqrt(w.r(1)) + slack, "landmark " << o.first.second << " is seen in step " << o.first.first << " at " << calib::show(o.second) << ", off by " << calib::show(e));
    s2 += e.cwiseAbs2().cwiseQuotient(w.r);
  }
  const size_t n = env.u.size(), m = env.seen.size();
  if (n >= 30 && w.q(0) > 1e-6) MC_REQUIRE((s3 / n).minCoeff() > 0.06, "motion has less noise than asked for: " << calib::show(s3 / n));
  if (m >= 30 && w.r(0) > 1e-4) MC_REQUIRE((s2 / m).minCoeff() > 0.06, "observations have less noise than asked for: " << calib::show(s2 / m));
  // estimates, and the same moved to where the landmarks are
  std::vector<int> order = env.steps(env.kept);
  if (estimates) {
    t.clear();
    for (int k : order) t.push_back({env.state[k](0), env.state[k](1), env.state[k](2)});
    same("x_est.txt", t, digits); same("l_est.txt", rows(env.landmark), digits);
  }
  V2 ml = V2::Zero(), me = V2::Zero();
  for (int i = 0; i < w.nl; ++i) { ml += l[i] / w.nl; me += env.landmark[i] / w.nl; }
  double c = 0, s = 0;
  for (int i = 0; i < w.nl; ++i) { const V2 a = env.landmark[i] - me, b = l[i] - ml; c += a.dot(b); s += a(0) * b(1) - a(1) * b(0); }
  const double strength = std::hypot(c, s);
  const Eigen::Rotation2Dd R(std::atan2(s, c));
  std::vector<V2> moved;
  for (auto& v : env.landmark) moved.push_back(ml + R * V2(v - me));
  // a motion in space may mirror what is no motion in the plane
  double mirrored = 0, mc_ = 0;
  for (int i = 0; i < w.nl; ++i) { const V2 a = env.landmark[i] - me, b = l[i] - ml; mirrored += a(0) * b(0) - a(1) * b(1); mc_ += a(0) * b(1) + a(1) * b(0); }
  if (std::hypot(mirrored, mc_) > 0.99 * strength) return;
  // l.txt has six digits, which turns what is far from the landmarks
  double spread = 0;
  for (auto& v : env.landmark) spread += (v - me).squaredNorm();
  if (!(spread > 1e-2)) return;
  auto turned = [&](const V2& v) { return 5e-4 + 1e-3 * (v - ml).norm() / std::sqrt(spread); };
  t = table("l_est_trans.txt");
  MC_REQUIRE((int)t.size() == w.nl, "l_est_trans.txt has " << t.size() << " lines");
  for (int i = 0; i < w.nl; ++i) MC_REQUIRE(t[i].size() == 2 && (V2(t[i][0], t[i][1]) - moved[i]).norm() < turned(moved[i]), "l_est_trans.txt, line " << i + 1 << ": " << show(t[i]) << " instead of " << calib::show(moved[i]));
  t = table("x_est_trans.txt");
  MC_REQUIRE(t.size() == order.size(), "x_est_trans.txt has " << t.size() << " lines instead of " << order.size());
  for (size_t i = 0; i < order.size(); ++i) {
    const V2 want = ml + R * V2(env.state[order[i]].head<2>() - me);
    MC_REQUIRE(t[i].size() == 3 && (V2(t[i][0], t[i][1]) - want).norm() < turned(want), "x_est_trans.txt, line " << i + 1 << ": " << show(t[i]) << " instead of " << calib::show(want));
  }
}

World world(mc::Chooser& c, std::string& name, const std::vector<int>& lengths) {
  const bool th = mc::config().thorough();
  World w;
  w.steps = c.pick(lengths); w.nl = c.pick(th ? std::vector<int>{3, 4, 7} : std::vector<int>{3, 5});
  w.T = c.pick(std::vector<double>{0.1, 0.5}); w.A = c.pick(std::vector<double>{0, 1, 10}); w.f = c.pick(std::vector<double>{0.01, 0.2});
  const int calibration = c.choose(th ? 4 : 3), noise = c.choose(2), place = c.choose(2);
  static const V3 thetas[] = {V3(0.219, 0.1, 0.78), V3(-1.5, 0.5, -2.5), V3(0, 2, 3.1), V3(0, 0, 0)};
  w.theta = thetas[calibration]; w.hat = w.theta + V3(0.011, -0.02, 0.03);
  w.x0 = place ? V3(-3, 7, 2.9) : V3(1, 1, M_PI / 4);
  w.lo = place ? V2(-20, 40) : V2(0, 0); w.hi = place ? V2(-10, 60) : V2(30, 30);
  w.q = noise ? V3(0.04, 0.0025, 0.01) : V3(1e-16, 2e-16, 3e-16); w.r = noise ? V2(0.25, 0.0025) : V2(1e-16, 2e-16);
  w.move();
  std::ostringstream o;
  o << w.steps << " steps of " << w.T << " s, " << w.nl << " landmarks, A " << w.A << ", f " << w.f << ", calibration " << calibration << ", noise " << noise << ", place " << place;
  name = o.str();
  return w;
}
void configure(const World& w, int batch) {
  auto& t = config("conf");
  auto num = [&](const std::string& n, double v) { std::ostringstream o; o.precision(17); o << v; t["lrf/" + n] = o.str(); };
  auto integer = [&](const std::string& n, long v) { t["lrf/" + n] = std::to_string(v); };
  const std::string p = "problem/";
  integer(p + "steps", w.steps); num(p + "timestep", w.T); num(p + "sineWaveAmplitude", w.A); num(p + "sineWaveFrequency", w.f); integer(p + "numLandmarks", w.nl);
  num(p + "groundMinX", w.lo(0)); num(p + "groundMinY", w.lo(1)); num(p + "groundMaxX", w.hi(0)); num(p + "groundMaxY", w.hi(1));
  static const char* axis[] = {"x", "y", "t"};
  for (int i = 0; i < 3; ++i) {
    num(p + "motion/sigma2_" + axis[i], w.q(i)); num(p + "thetaTrue/" + axis[i], w.theta(i)); num(p + "thetaHat/" + axis[i], w.hat(i)); num(p + "x0/" + axis[i], w.x0(i));
  }
  num(p + "observation/sigma2_r", w.r(0)); num(p + "observation/sigma2_b", w.r(1));
  t["lrf/estimator/checkValidity"] = "false"; num("estimator/infoGainDelta", 0.5); integer("estimator/groupId", 2); t["lrf/estimator/verbose"] = "false"; integer("estimator/batchSize", batch);
  integer("estimator/optimizer/maxIterations", 20); t["lrf/estimator/optimizer/verbose"] = "false";
}

void offline(mc::Chooser& c) {
  std::string name;
  const World w = world(c, name, mc::config().thorough() ? std::vector<int>{2, 3, 5, 20, 40} : std::vector<int>{2, 3, 8, 31});
  c.trace([&](std::ostream& o) { o << name; });
  configure(w, 5);
  Watcher env(w, true, w.steps);
  std::string text;
  c.step(); c.check();
  const int rc = run(laser_offline_main, {"conf"}, &text);
  MC_REQUIRE(rc == 0 && env.batches == 1, name << ": the program ends with " << rc << " after " << env.batches << " optimisations");
  judge(w, env, true);
  MC_REQUIRE(close(numbers(text, "Calibration before: ", 3), w.hat) && close(numbers(text, "Calibration after: ", 3), env.theta), name << ": another calibration is told: " << text);
  // figures are those of the final analysis, and the scaled ones those before it
  MC_REQUIRE(env.analyses == 1, name << ": " << env.analyses << " analyses");
  MC_REQUIRE(said(text, "SVD rank: ") == 3 && said(text, "SVD rank deficiency: ") == 0 && said(text, "SVD tolerance: ") == 0.5 && said(text, "QR rank deficiency: ") == 42 && said(text, "QR tolerance: ") == 0.25 && said(text, "QR rank: ") == 3 * w.steps + 2 * w.nl, name << ": other ranks are told: " << text);
  MC_REQUIRE(close(numbers(text, "Singular values (scaled): ", 3), V3(11, 7, 3)) && close(numbers(text, "Singular values: ", 3), V3(12, 7, 3)) && close(numbers(text, "Covariance: ", 9), (Vec(9) << 0.125, 0, 0, 0, 0.25, 0, 0, 0, 1.5).finished()), name << ": other figures are told: " << text);
  MC_REQUIRE(said(text, "Peak memory usage (MB): ") == 5 && said(text, "\nMemory usage (MB): ") == 3 && said(text, "Flop count: ") == 71, name << ": memory or operations");
  c.outcome(std::to_string(w.steps) + "/" + std::to_string(w.nl) + "/" + std::to_string(env.seen.size()));
}
mc::Register r1("D04", "offline", offline, "the batch program on every combination of lengths, time steps, waves, numbers of landmarks, calibrations, noise and places of a lattice", 16, 4);

void online(mc::Chooser& c) {
  std::string name;
  const bool th = mc::config().thorough();
  const int size = c.pick(th ? std::vector<int>{2, 3, 4, 7, 50} : std::vector<int>{2, 3, 5, 50});
  const World w = world(c, name, th ? std::vector<int>{2, 3, 4, 7, 10} : std::vector<int>{2, 4, 7, 11});
  const int n = (w.steps + size - 1) / size;
  if (n > (th ? 5 : 4)) return;
  configure(w, size);
  Watcher env(w, true, size);
  std::string story;
  std::vector<bool> keep;
  for (int i = 1; i < n; ++i) keep.push_back(c.flip());
  env.keep = [&]() { return keep.at(env.at - 1); };
  for (bool k : keep) story += k ? "K" : "r";
  c.trace([&](std::ostream& o) { o << name << ", batches of " << size << ", then " << story; });
  std::string text;
  c.step(); c.check();
  const int rc = run(laser_online_new_main, {"conf"}, &text);
  MC_REQUIRE(rc == 0 && env.batches == n, name << ": the program ends with " << rc << " after " << env.batches << " batches instead of " << n);
  judge(w, env, false);
  MC_REQUIRE(close(numbers(text, "final calibration: ", 3), env.theta), name << ": another calibration is told: " << text);
  MC_REQUIRE((int)said(text, "number of batches: ") == (int)env.kept.size() && (int)said(text, " out of ") == n, name << ": number of batches: " << text.substr(text.rfind("number of batches")) << " instead of " << env.kept.size() << " of " << n);
  const int states = (int)env.steps(env.kept).size(), first = (int)env.kept.size();
  MC_REQUIRE((int)said(text, "number of design variables: ") == states + w.nl + 1 && (int)said(text, "number of error terms: ") == (states - first) * (1 + w.nl), name << ": size of the problem: " << text.substr(text.rfind("number of batches")));
  MC_REQUIRE(exists("J.txt"), name << ": no Jacobian");
  int accepted = 0, rejected = 0;
  for (size_t p = 0; (p = text.find("ACCEPTED", p)) != std::string::npos; ++p) ++accepted;
  for (size_t p = 0; (p = text.find("REJECTED", p)) != std::string::npos; ++p) ++rejected;
  MC_REQUIRE(accepted == first && rejected == n - first, name << ": " << accepted << " batches are told to be accepted and " << rejected << " rejected");
  c.outcome(std::to_string(n) + "/" + story + "/" + std::to_string(w.steps));
}
mc::Register r2("D04", "online", online, "the incremental program on such a lattice with every size of the batches, with every sequence of batches kept and rejected", 16, 4);

// the older program has everything built in: 25 batches of 200 steps
void older(mc::Chooser& c) {
  const int depth = mc::config().thorough() ? 5 : 3;
  World w;
  w.steps = 5000; w.nl = 17; w.T = 0.1; w.A = 1; w.f = 0.01; w.theta = V3(0.219, 0.1, 0.78); w.hat = V3(0.23, 0.11, 0.8); w.x0 = V3(1, 1, M_PI / 4); w.lo = V2(0, 0); w.hi = V2(30, 30); w.q = V3(0.00044, 1e-6, 0.00082); w.r = V2(0.00090, 0.00067);
  w.move();
  Watcher env(w, false, 200);
  // what the batch adds: enough, just not enough, nothing, or less
  static const double adds[] = {0.75, 0.5, 0, -1};
  std::vector<int> what;
  std::string story;
  const int start = c.choose(2) ? 1 : 25 - depth;
  for (int i = 0; i < depth; ++i) { what.push_back(c.choose(4)); story += std::to_string(what.back()); }
  c.trace([&](std::ostream& o) { o << "from batch " << start << " on: " << story; });
  auto add = [&](int b) { const int i = b - start; return i >= 0 && i < depth ? adds[what[i]] : 0.; };
  env.keep = [&]() { return add(env.at) > 0.5; };
  double det = 64;
  V3 calibration = V3::Zero(); Mat sigma;
  env.figures = [&](std::ptrdiff_t, int) {
    verif::SvdAnswer a;
    const double d = env.at == 0 ? det : det * std::exp2(-2 * add(env.at));
    a.covariance = Mat(V3(d / 8, 2, 4).asDiagonal());
    a.matrixU = a.nullSpace = a.rowSpace = a.rowSpaceCovariance = Mat::Identity(3, 3);
    if (env.keeping) { det = d; calibration = env.theta; sigma = a.covariance; }
    return a;
  };
  std::string text;
  c.step(); c.check();
  const int rc = run(laser_online_main, {}, &text);
  MC_REQUIRE(rc == 0 && env.batches == 25 && env.analyses == 25, "the program ends with " << rc << " after " << env.batches << " batches");
  judge(w, env, true);
  MC_REQUIRE(close(numbers(text, "Final calibration: ", 3), calibration), "another calibration is told: " << text.substr(text.rfind("Final")) << " instead of " << calib::show(calibration));
  MC_REQUIRE(close(numbers(text, "Sigma: ", 9), Eigen::Map<Vec>(sigma.data(), 9)), "another covariance is told: " << text.substr(text.rfind("Sigma")) << " instead of " << calib::show(sigma));
  MC_REQUIRE(said(text, "Data used: ") == 4. * env.kept.size(), "data used: " << said(text, "Data used: ") << " % for " << env.kept.size() << " batches");
  c.outcome(story + "/" + std::to_string(env.kept.size()));
}
mc::Register r3("D04", "older", older, "the older incremental program with every sequence of gains (enough, just not, none, negative) over its first or its last batches", 8, 2);

void usage(mc::Chooser& c) {
  const int program = c.choose(2), n = c.choose(4);
  World w; std::string name; w.steps = 2; w.nl = 3;
  Watcher env(w, true, 2);
  sm::BoostPropertyTree::files().clear();
  auto* m = program ? laser_online_new_main : laser_offline_main;
  c.step(); c.check();
  if (n == 1) {
    bool threw = false;
    try { run(m, {"nowhere"}); } catch (const mc::Violation&) { throw; } catch (const std::exception&) { threw = true; }
    MC_REQUIRE(threw, "no complaint about a configuration that is not there");
  } else MC_REQUIRE(run(m, std::vector<std::string>(n, "conf")) != 0, "no complaint about " << n << " arguments");
  MC_REQUIRE(env.batches == 0 && !exists("x_true.txt"), "something is done without a configuration");
  c.outcome(std::to_string(n));
}
mc::Register r4("D04", "usage", usage, "the programs without, with too many, and with wrong arguments", 1, 1);
}  // namespace
MC_MAIN
