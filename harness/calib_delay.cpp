// K01: the calibrator of a differential drive with time delays.
#include <print_common.hpp>
#include <calib_common.hpp>

#include <aslam/backend/EuclideanPoint.hpp>
#include <aslam/backend/FixedPointNumber.hpp>
#include <aslam/backend/GenericScalar.hpp>
#include <aslam/backend/RotationQuaternion.hpp>
#include <aslam/backend/Scalar.hpp>

#include <aslam/calibration/time-delay/algo/Calibrator.h>
#include <aslam/calibration/time-delay/algo/CalibratorOptions.h>
#include <aslam/calibration/time-delay/algo/OptimizationProblemSpline.h>
#include <aslam/calibration/time-delay/data/PoseMeasurement.h>
#include <aslam/calibration/time-delay/data/WheelSpeedMeasurement.h>
#include <aslam/calibration/time-delay/design-variables/OdometryDesignVariables.h>
#include <shipped.hpp>

using namespace calib;
namespace {
struct Config {
  double window = 0.05;
  int knots = 5, transOrder = 4, rotOrder = 3;
  bool transOrderGiven = true;
  double transLambda = 0.25, rotLambda = 0.5;
  double varLeft = 0.5, varRight = 0.125, varY = 4, varZ = 8;
  Time bound = 3 * ms, left = 7 * ms, right = -7 * ms;
  bool delays = true, translation = true, rotation = false;
};
struct Pose { Time t; V3 r, ypr; M3 sr, so; };
struct Wheel { Time t; double v; };

Pose poseAt(int i, Time t) {
  static const double x[][6] = {{0, 0, 0, 0, 0, 0}, {0.1, 0.02, 0, 0.1, 0.02, -0.03}, {0.25, -0.04, 0.01, 3.1, -0.2, 0.1}, {0.2, 0.1, 0.02, -3.0, 0.1, 0.2}, {-0.1, 0.3, -0.05, 1.2, 0.3, 3.0}};
  const double* y = x[i % 5];
  Pose p{t, V3(y[0], y[1], y[2]), V3(y[3], y[4], y[5]), M3(), M3()};
  p.sr << 2 + i % 3, 0.5, 0, 0.5, 3, 0.25, 0, 0.25, 1; p.so = M3::Identity() * (0.5 + i % 2); p.so(0, 1) = p.so(1, 0) = 0.125;
  return p;
}

struct World {
  Config k;
  Oracle env;
  boost::shared_ptr<Calibrator> cal;
  // the model
  std::vector<Pose> poses;
  std::vector<Wheel> left, right;
  Time start = -1, last = -1;
  std::vector<double> gains;
  std::vector<Vec> params;
  std::vector<std::pair<Time, std::pair<V3, V3>>> posePred;
  std::vector<std::pair<Time, double>> leftPred, rightPred;
  std::vector<Vec> errs[3];
  std::vector<double> errs2[3];
  int accepted = 0;

  World(mc::Chooser& c, const Config& k) : k(k) {
    env.c = &c;
    sm::BoostPropertyTree t;
    estimatorConfig(t);
    t.setDouble("windowDuration", k.window); t.setBool("verbose", false); t.setInt("delayBound", (int)k.bound);
    t.setDouble("splines/transSplineLambda", k.transLambda); t.setDouble("splines/rotSplineLambda", k.rotLambda);
    t.setInt("splines/splineKnotsPerSecond", k.knots); if (k.transOrderGiven) t.setInt("splines/transSplineOrder", k.transOrder);
    t.setInt("splines/rotSplineOrder", k.rotOrder);
    t.setDouble("odometry/sensors/wss/noise/lwVariance", k.varLeft); t.setDouble("odometry/sensors/wss/noise/rwVariance", k.varRight);
    t.setDouble("odometry/constraints/noise/vyVariance", k.varY); t.setDouble("odometry/constraints/noise/vzVariance", k.varZ);
    t.setDouble("odometry/intrinsics/halfWheelBase", 0.75); t.setDouble("odometry/intrinsics/lwCoefficient", 1.5); t.setDouble("odometry/intrinsics/rwCoefficient", 0.875);
    t.setInt("odometry/intrinsics/lwTimeDelay", (int)k.left); t.setInt("odometry/intrinsics/rwTimeDelay", (int)k.right); t.setBool("odometry/intrinsics/timeDelaysActive", k.delays);
    t.setDouble("odometry/extrinsics/translation/x", 0.5); t.setDouble("odometry/extrinsics/translation/y", -0.25); t.setDouble("odometry/extrinsics/translation/z", 1.25);
    t.setBool("odometry/extrinsics/translation/active", k.translation);
    t.setDouble("odometry/extrinsics/rotation/yaw", 0.6); t.setDouble("odometry/extrinsics/rotation/pitch", -0.2); t.setDouble("odometry/extrinsics/rotation/roll", 0.1);
    t.setBool("odometry/extrinsics/rotation/active", k.rotation);
    cal = boost::make_shared<Calibrator>(t);
    const OdometryDesignVariables& d = dv();
    MC_REQUIRE(d.b->toScalar() == 0.75 && d.k_l->toScalar() == 1.5 && d.k_r->toScalar() == 0.875 && d.t_l->toScalar().getNumerator() == k.left && d.t_r->toScalar().getNumerator() == k.right, "the intrinsic calibration does not start at the configuration");
    MC_REQUIRE(d.v_r_vp->toEuclidean() == V3(0.5, -0.25, 1.25) && near(d.v_R_p->toRotationMatrix(), rotation(V3(0.6, -0.2, 0.1))), "the extrinsic calibration does not start at the configuration");
    MC_REQUIRE(d.b->isActive() && d.k_l->isActive() && d.k_r->isActive() && d.t_l->isActive() == k.delays && d.t_r->isActive() == k.delays && d.v_r_vp->isActive() == k.translation && d.v_R_p->isActive() == k.rotation, "what is estimated is not what the configuration says");
    params.push_back(parameters());
  }
  const OdometryDesignVariables& dv() const { return *cal->getOdometryDesignVariables(); }
  std::vector<DV*> calibration() const {
    const OdometryDesignVariables& d = dv();
    return {d.b.get(), d.k_l.get(), d.t_l.get(), d.k_r.get(), d.t_r.get(), d.v_r_vp.get(), d.v_R_p.get()};
  }
  Vec parameters() const {
    const OdometryDesignVariables& d = dv();
    Vec p(11);
    p << d.b->toScalar(), d.k_l->toScalar(), d.t_l->toScalar().getNumerator() / 1e9, d.k_r->toScalar(), d.t_r->toScalar().getNumerator() / 1e9, d.v_r_vp->toEuclidean(), angles(d.v_R_p->toRotationMatrix());
    return p;
  }
  typedef Path<Calibrator::TranslationSpline, Calibrator::RotationSpline> ThePath;
  ThePath path() const { return {cal->getTranslationSpline(), cal->getRotationSpline()}; }
  Time delay(bool l) const { return (l ? dv().t_l : dv().t_r)->toScalar().getNumerator(); }
  bool inside(bool l, Time t) const { const Time u = t + delay(l); return u - k.bound >= poses.front().t && u + k.bound <= poses.back().t; }
  Term poseTerm(const Pose& m) const {
    const ThePath p = path();
    const OdometryDesignVariables* d = &dv();
    Term t;
    t.name = "pose at " + std::to_string(m.t);
    t.error = [p, d, m]() {
      const M3 C = p.attitude(m.t);
      Vec e(6); e << m.r - p.position(m.t) - C * d->v_r_vp->toEuclidean(), m.ypr - angles(C * d->v_R_p->toRotationMatrix());
      for (int i = 3; i < 6; ++i) e(i) = wrap(e(i));
      return e;
    };
    t.covariance = Mat::Zero(6, 6); t.covariance.topLeftCorner(3, 3) = m.sr; t.covariance.bottomRightCorner(3, 3) = m.so;
    t.dvs = {d->v_r_vp.get(), d->v_R_p.get()};
    return t;
  }
  V3 wheelVelocity(bool l, Time t) const { return path().velocityOf(V3(0, (l ? 1 : -1) * dv().b->toScalar(), 0), t + delay(l)); }
  Term wheelTerm(bool l, const Wheel& m) const {
    const ThePath p = path();
    const OdometryDesignVariables* d = &dv();
    Term t;
    t.name = std::string(l ? "left" : "right") + " wheel at " + std::to_string(m.t);
    t.error = [p, d, m, l]() {
      const V3 v = p.velocityOf(V3(0, (l ? 1 : -1) * d->b->toScalar(), 0), m.t + (l ? d->t_l : d->t_r)->toScalar().getNumerator());
      return Vec(V3(m.v - (l ? d->k_l : d->k_r)->toScalar() * v(0), -v(1), -v(2)));
    };
    t.covariance = V3(l ? k.varLeft : k.varRight, k.varY, k.varZ).asDiagonal();
    t.dvs = {d->b.get(), (l ? d->k_l : d->k_r).get(), (l ? d->t_l : d->t_r).get()};
    return t;
  }
  void checkCurves(const std::vector<Pose>& ps) const {
    std::vector<Time> t; std::vector<V3> r; std::vector<M3> C;
    for (auto& q : ps) {
      t.push_back(q.t);
      C.push_back(rotation(q.ypr) * dv().v_R_p->toRotationMatrix().transpose());
      r.push_back(q.r - C.back() * dv().v_r_vp->toEuclidean());
    }
    curves(path(), t, r, C, k.knots, k.transOrder, k.rotOrder, k.transLambda, k.rotLambda, ps.size());
  }
  // A request that may hand a batch over.
  template <class F> void request(mc::Chooser& c, bool hands, const F& f) {
    bool seen = false;
    env.seen = nullptr;
    if (hands) {
      env.accept = c.flip();
      env.seen = [this, &c, &seen](IncrementalOptimizationProblem& all) {
        seen = true;
        checkCurves(poses);
        std::vector<Wheel> in[2];
        for (auto& w : left) if (inside(true, w.t)) in[0].push_back(w);
        for (auto& w : right) if (inside(false, w.t)) in[1].push_back(w);
        Time room = 10 * ms;
        for (int s = 0; s < 2; ++s) for (auto& w : in[s]) room = std::min(room, poses.back().t - w.t - delay(s == 0));
        c.note(std::to_string(in[0].size()) + "/" + std::to_string(in[1].size()));
        batch(c, all, path(), calibration(), [&] {
          std::vector<Term> v;
          for (auto& q : poses) v.push_back(poseTerm(q));
          for (auto& w : in[0]) v.push_back(wheelTerm(true, w));
          for (auto& w : in[1]) v.push_back(wheelTerm(false, w));
          return v;
        }, [&](DV* v, double by) { return (v != dv().t_l.get() && v != dv().t_r.get()) || room > by * 1e9; });
      };
    }
    const int before = env.optimisations;
    f();
    env.seen = nullptr;
    MC_REQUIRE((env.optimisations > before) == hands, (hands ? "no batch is handed to the estimator" : "a batch is handed to the estimator too early"));
    if (!hands) return;
    MC_REQUIRE(seen, "the estimator never saw the batch");
    const bool kept = env.accept || accepted == 0;
    gains.push_back(0.5 * (env.next() - (accepted ? env.log : 0)));
    if (kept) { env.log = env.next(); ++accepted; }
    params.push_back(parameters());
    poses.clear(); left.clear(); right.clear();
    start = last;
    MC_REQUIRE((int)cal->getEstimator()->getNumBatches() == accepted, "the estimator keeps " << cal->getEstimator()->getNumBatches() << " batches instead of " << accepted);
  }
  void arrive(Time t) { last = t; if (start == -1) start = t; }
  bool due(Time t) const { return (start == -1 ? 0 : t - start) >= (Time)std::llround(k.window * 1e9) && poses.size() >= 2; }
  void addPose(mc::Chooser& c, const Pose& p) {
    PoseMeasurement m; m.w_r_wp = p.r; m.w_R_p = p.ypr; m.sigma2_w_r_wp = p.sr; m.sigma2_w_R_p = p.so;
    const bool d = due(p.t); arrive(p.t);
    request(c, d, [&] { cal->addPoseMeasurement(m, p.t); });
    poses.push_back(p);
  }
  void addWheel(mc::Chooser& c, bool l, const Wheel& w) {
    WheelSpeedMeasurement m; m.value = w.v;
    const bool d = due(w.t); arrive(w.t);
    request(c, d, [&] { if (l) cal->addLeftWheelMeasurement(m, w.t); else cal->addRightWheelMeasurement(m, w.t); });
    (l ? left : right).push_back(w);
  }
  void process(mc::Chooser& c) { request(c, poses.size() >= 2, [&] { cal->addMeasurements(); }); }
  void predict(mc::Chooser& c) {
    request(c, false, [&] { cal->predict(); });
    if (poses.size() < 2) return;
    checkCurves(poses);
    auto store = [&](int i, const Term& t) { const Vec e = t.error(); errs[i].push_back(e); errs2[i].push_back(e.dot(t.covariance.inverse() * e)); };
    for (auto& p : poses) { posePred.push_back({p.t, {p.r, p.ypr}}); store(0, poseTerm(p)); }
    for (int s = 0; s < 2; ++s) for (auto& w : s ? right : left) if (inside(!s, w.t)) {
      (s ? rightPred : leftPred).push_back({w.t, (s ? dv().k_r : dv().k_l)->toScalar() * wheelVelocity(!s, w.t)(0)});
      store(1 + s, wheelTerm(!s, w));
    }
  }
  void clearPredictions() {
    cal->clearPredictions();
    posePred.clear(); leftPred.clear(); rightPred.clear();
    for (auto& e : errs) e.clear();
    for (auto& e : errs2) e.clear();
  }
  void clear() { cal->clearMeasurements(); poses.clear(); left.clear(); right.clear(); }

  void observe(mc::Chooser& c) {
    c.check();
    const Calibrator& x = *cal;
    MC_REQUIRE(x.getPoseMeasurements().size() == poses.size(), x.getPoseMeasurements().size() << " poses are waiting instead of " << poses.size());
    for (size_t i = 0; i < poses.size(); ++i) MC_REQUIRE(x.getPoseMeasurements()[i].first == poses[i].t && x.getPoseMeasurements()[i].second.w_r_wp == poses[i].r, "the poses waiting are others");
    for (int s = 0; s < 2; ++s) {
      auto& got = s ? x.getRightWheelMeasurements() : x.getLeftWheelMeasurements(); auto& want = s ? right : left;
      MC_REQUIRE(got.size() == want.size(), (s ? "right" : "left") << " wheel: " << got.size() << " measurements are waiting instead of " << want.size());
      for (size_t i = 0; i < want.size(); ++i) MC_REQUIRE(got[i].first == want[i].t && got[i].second.value == want[i].v, "the wheel measurements waiting are others");
    }
    MC_REQUIRE(x.unprocessedMeasurements() == (!poses.empty() || !left.empty() || !right.empty()), "unprocessedMeasurements() says " << x.unprocessedMeasurements());
    const std::vector<double> g = x.getInformationGainHistory();
    MC_REQUIRE(g.size() == gains.size(), "history of " << g.size() << " information gains after " << gains.size() << " batches");
    for (size_t i = 0; i < g.size(); ++i) MC_REQUIRE(near(Mat::Constant(1, 1, g[i]), Mat::Constant(1, 1, gains[i])), "information gain of batch " << i << ": " << g[i] << " instead of " << gains[i]);
    const std::vector<Vec> h = x.getOdometryVariablesHistory();
    MC_REQUIRE(h.size() == params.size(), "history of " << h.size() << " calibrations after " << gains.size() << " batches");
    for (size_t i = 0; i < h.size(); ++i) MC_REQUIRE(near(h[i], params[i], 1e-9), "calibration after batch " << i << ": " << show(h[i]) << " instead of " << show(params[i]));
    MC_REQUIRE(x.getPosePredictions().size() == posePred.size(), x.getPosePredictions().size() << " poses are predicted instead of " << posePred.size());
    for (size_t i = 0; i < posePred.size(); ++i) {
      auto& q = x.getPosePredictions()[i];
      MC_REQUIRE(q.first == posePred[i].first && near(q.second.w_r_wp, posePred[i].second.first), "predicted pose " << i << ": " << show(q.second.w_r_wp) << " instead of " << show(posePred[i].second.first));
      for (int j = 0; j < 3; ++j) MC_REQUIRE(std::fabs(wrap(q.second.w_R_p(j) - posePred[i].second.second(j))) < 1e-6, "predicted attitude " << i);
    }
    for (int s = 0; s < 2; ++s) {
      auto& q = s ? x.getRightWheelPredictions() : x.getLeftWheelPredictions(); auto& want = s ? rightPred : leftPred;
      MC_REQUIRE(q.size() == want.size(), (s ? "right" : "left") << " wheel: " << q.size() << " predictions instead of " << want.size());
      for (size_t i = 0; i < q.size(); ++i) MC_REQUIRE(q[i].first == want[i].first && near(Mat::Constant(1, 1, q[i].second.value), Mat::Constant(1, 1, want[i].second)), (s ? "right" : "left") << " wheel: predicted " << q[i].second.value << " instead of " << want[i].second);
    }
    const std::vector<Vec>* e[] = {&x.getPosePredictionErrors(), &x.getLeftWheelPredictionErrors(), &x.getRightWheelPredictionErrors()};
    const std::vector<double>* e2[] = {&x.getPosePredictionErrors2(), &x.getLeftWheelPredictionErrors2(), &x.getRightWheelPredictionErrors2()};
    for (int s = 0; s < 3; ++s) {
      MC_REQUIRE(e[s]->size() == errs[s].size() && e2[s]->size() == errs2[s].size(), "number of prediction errors");
      for (size_t i = 0; i < errs[s].size(); ++i) {
        MC_REQUIRE(near((*e[s])[i], errs[s][i]), "prediction error " << show((*e[s])[i]) << " instead of " << show(errs[s][i]));
        MC_REQUIRE(near(Mat::Constant(1, 1, (*e2[s])[i]), Mat::Constant(1, 1, errs2[s][i]), 1e-5), "weighted prediction error " << (*e2[s])[i] << " instead of " << errs2[s][i]);
      }
    }
  }
};

void histories(mc::Chooser& c) {
  World w(c, Config());
  Time t = 10 * ms;
  int np = 0, nw = 0;
  const int depth = mc::config().thorough() ? 7 : 6;
  for (int i = 0; i < depth; ++i) {
    const int a = c.choose(9);
    c.step();
    if (a < 6) {
      // 30 + 10 + 10 ms make a window
      t += a % 2 ? 10 * ms : 30 * ms;
      if (a / 2 == 0) { c.trace([&](std::ostream& o) { o << "pose at " << t; }); w.addPose(c, poseAt(np++, t)); }
      else { c.trace([&](std::ostream& o) { o << (a / 2 == 1 ? "left" : "right") << " wheel at " << t; }); w.addWheel(c, a / 2 == 1, Wheel{t, 2.0 + nw++}); }
    } else if (a == 6) { c.traceText("process"); w.process(c); }
    else if (a == 7) { c.traceText("clear"); if (c.flip()) w.clearPredictions(); else w.clear(); }
    else { c.traceText("predict"); w.predict(c); }
    if (c.fresh()) w.observe(c);
  }
  c.outcome(std::to_string(w.gains.size()) + "/" + std::to_string(w.accepted));
}

void windows(mc::Chooser& c) {
  Config k; k.left = 3 * ms; k.bound = 0; k.knots = 60;
  World w(c, k);
  w.env.still = true;
  Time t = 10 * ms;
  const int depth = mc::config().thorough() ? 10 : 8;
  for (int i = 0; i < depth; ++i) {
    const int a = c.choose(4);
    c.step();
    t += a % 2 ? 10 * ms : 30 * ms;
    c.trace([&](std::ostream& o) { o << (a / 2 ? "left wheel at " : "pose at ") << t; });
    if (a / 2) w.addWheel(c, true, Wheel{t, 2.0 + i}); else w.addPose(c, poseAt(i, t));
    if (c.fresh()) w.observe(c);
  }
  c.outcome(std::to_string(w.gains.size()) + "/" + std::to_string(w.accepted));
}

void grid(mc::Chooser& c) {
  Config k;
  k.window = 10;
  const Time delays[] = {0, 4 * ms, -7 * ms, 60 * ms}, bounds[] = {0, 1 * ms, 3 * ms, 60 * ms};
  k.left = delays[c.choose(4)]; k.right = delays[c.choose(4)]; k.bound = bounds[c.choose(4)];
  k.delays = c.flip();
  k.translation = k.rotation = k.delays;
  static const int knots[] = {5, 100, 150};
  k.knots = knots[c.choose(3)];
  static const int counts[] = {2, 3, 6};
  const int n = counts[c.choose(3)], seed = c.choose(3);
  if (seed == 1) { k.transOrderGiven = false; k.rotOrder = 6; k.transLambda = 0; }
  if (seed == 2) { k.transOrder = 5; k.rotLambda = 0; k.rotation = !k.rotation; }
  World w(c, k);
  w.env.still = true;
  for (int i = 0; i < n; ++i) w.addPose(c, poseAt(i * (seed + 1) + seed, 100 * ms + i * 10 * ms));
  for (Time t = 80 * ms; t <= 170 * ms; t += ms) for (int s = 0; s < 2; ++s) {
    // curves have no derivative at their knots
    const Time u = t + (s ? k.right : k.left);
    if (u % (10 * ms) == 0 && u > 100 * ms && u < 100 * ms + (n - 1) * 10 * ms) continue;
    w.addWheel(c, !s, Wheel{t, 0.5 * (double)(t / ms) - s});
  }
  c.step();
  w.predict(c);
  w.observe(c);
  w.process(c);
  w.observe(c);
  c.outcome(std::to_string(w.errs[1].size()) + "/" + std::to_string(w.errs[2].size()));
}
// Y01: what the calibration variables print is what they hold
void printedDelay(mc::Chooser& c) {
  World w(c, Config());
  std::vector<DV*> v = w.calibration();
  for (int i = 0; i < (mc::config().thorough() ? 3 : 2); ++i) {
    DV* d = v[c.choose((int)v.size())];
    const double dp[] = {0.0625, -0.03125, 0.015625, 0.125};
    d->update(dp, d->minimalDimensions());
    c.trace([&](std::ostream& o) { o << "variable " << (std::find(v.begin(), v.end(), d) - v.begin()) << " changes"; });
    const Vec p = w.parameters();
    const auto& a = w.dv();
    text::printed(c, "the calibration", a, {{"b", text::one(p(0))}, {"k_l", text::one(p(1))}, {"t_l", text::one(p(2))}, {"k_r", text::one(p(3))}, {"t_r", text::one(p(4))}, {"v_r_vp", text::rows(Vec(p.segment(5, 3)))}, {"v_R_p", text::rows(Vec(p.segment(8, 3)))}}, 1e-12);
    MC_REQUIRE(near(a.getParameters(), p, 1e-12), "the vector of parameters is " << show(a.getParameters()) << " instead of " << show(p));
  }
}
mc::Register y1("Y01", "delay-calibration", printedDelay, "every sequence of 2 (thorough: 3) changes to the calibration variables with time delays", 1, 1);
mc::Register h1("K01", "delay-histories", histories, "every history of 6 (thorough: 7) requests: a pose, left or right wheel speed 10 or 30 ms later (a window lasts 50 ms), process, clear, predict, clear predictions; every batch kept or rejected", 32, 2);
mc::Register h3("K01", "delay-windows", windows, "every sequence of 8 (thorough: 10) poses and wheel speeds 10 or 30 ms apart, over several windows; every batch kept or rejected", 16, 2);
mc::Register h2("K01", "delay-grid", grid, "delays {0, 4, -7, 60} ms x bounds {0, 1, 3, 60} ms x {2, 3, 6} poses x wheel speeds at every ms from 20 ms before to 20 ms after them x knots, orders, smoothing, what is estimated", 16, 3);

void shippedDelay(mc::Chooser& c) {
  sm::BoostPropertyTree t;
  shipped("incremental_calibration_examples/incremental_calibration_examples_time_delay/conf/simulation.xml", t);
  Oracle env;
  c.check(); c.step();
  Calibrator x(sm::PropertyTree(t, "time-delay/calibrator"));
  MC_REQUIRE(x.getOdometryDesignVariables() && !x.unprocessedMeasurements(), "the calibrator is not as shipped");
  c.outcome("calibrator");
}
mc::Register h4("K01", "delay-shipped", shippedDelay, "the calibrator from the configuration that is shipped", 1, 1);
}  // namespace
MC_MAIN
