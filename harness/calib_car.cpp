// K01: the calibrator of the car.
#include <print_common.hpp>
#include <calib_common.hpp>

#include <aslam/backend/EuclideanPoint.hpp>
#include <aslam/backend/FixedPointNumber.hpp>
#include <aslam/backend/GenericScalar.hpp>
#include <aslam/backend/RotationQuaternion.hpp>
#include <aslam/backend/Scalar.hpp>

#include <aslam/calibration/data-structures/VectorDesignVariable.h>
#include <aslam/calibration/car/algo/CarCalibrator.h>
#include <aslam/calibration/car/algo/CarCalibratorOptions.h>
#include <aslam/calibration/car/algo/OptimizationProblemSpline.h>
#include <aslam/calibration/car/data/DMIMeasurement.h>
#include <aslam/calibration/car/data/PoseMeasurement.h>
#include <aslam/calibration/car/data/SteeringMeasurement.h>
#include <aslam/calibration/car/data/VelocitiesMeasurement.h>
#include <aslam/calibration/car/data/WheelSpeedsMeasurement.h>
#include <aslam/calibration/car/design-variables/OdometryDesignVariables.h>
#include <shipped.hpp>

using namespace calib;
namespace {
struct Config {
  double window = 0.05;
  int knots = 5, transOrder = 4, rotOrder = 3, cutoff = 3;
  bool transOrderGiven = true;
  double transLambda = 0.25, rotLambda = 0.5, tolerance = 0.5;
  double varDMI = 0.5, varFL = 0.125, varFR = 2, varRL = 16, varRR = 32, varS = 0.0625, varY = 4, varZ = 8;
  Time bound = 3 * ms;
  Time delays[4] = {4 * ms, -4 * ms, 7 * ms, -7 * ms};  // DMI, front, rear, steering
  bool active = true, pose = true, velocities = true;
};
enum Sensor { kPose, kVel, kDMI, kFront, kRear, kSteer };
const char* kNames[] = {"pose", "velocities", "DMI", "front wheels", "rear wheels", "steering"};

// a measurement of any sensor
struct Meas {
  Time t;
  V3 a, b;   // position and angles, velocities, left and right, value
  M3 sa, sb;
};

Meas measurement(int s, int i, Time t) {
  Meas m{t, V3::Zero(), V3::Zero(), M3::Identity(), M3::Identity()};
  if (s == kPose) {
    // forwards, forwards while turning, backwards, backwards across the half turn
    static const double x[][6] = {{0, 0, 0, 0, 0, 0}, {0.1, 0.02, 0, 0.1, 0.02, -0.03}, {0.25, 0.04, 0.01, 0.4, -0.02, 0.1}, {0.1, -0.1, 0.02, 0.5, 0.1, 0.2}, {0.4, 0.1, -0.05, 3.1, 0.3, 0.1}, {0.3, 0.2, 0, -3.0, 0.1, -0.2}};
    const double* y = x[i % 6];
    m.a = V3(y[0], y[1], y[2]); m.b = V3(y[3], y[4], y[5]);
  } else if (s == kVel) { m.a = V3(1 + i, -0.5, 0.25); m.b = V3(0.1, 0.2 * i, -0.3); }
  else { m.a = V3(2.25 + i % 3, 3.5 - i % 2, 0); if (s == kSteer) m.a(0) -= 2.5; if (s == kDMI) m.a(0) -= 1; }
  m.sa << 2 + i % 3, 0.5, 0, 0.5, 3, 0.25, 0, 0.25, 1;
  m.sb(0, 1) = m.sb(1, 0) = 0.125; m.sb *= 0.5 + i % 2;
  return m;
}

struct Prediction { Time t; V3 a, b; Vec error; double cost; };

struct World {
  Config k;
  Oracle env;
  boost::shared_ptr<CarCalibrator> cal;
  std::vector<Meas> waiting[6];
  Time start = -1, last = -1;
  std::vector<double> gains;
  std::vector<Vec> params;
  std::vector<Prediction> predictions[6];
  int accepted = 0;

  World(mc::Chooser& c, const Config& k) : k(k) {
    env.c = &c;
    sm::BoostPropertyTree t;
    estimatorConfig(t);
    t.setDouble("windowDuration", k.window); t.setBool("verbose", false); t.setBool("usePose", k.pose); t.setBool("useVelocities", k.velocities);
    t.setDouble("splines/transSplineLambda", k.transLambda); t.setDouble("splines/rotSplineLambda", k.rotLambda);
    t.setInt("splines/splineKnotsPerSecond", k.knots); if (k.transOrderGiven) t.setInt("splines/transSplineOrder", k.transOrder);
    t.setInt("splines/rotSplineOrder", k.rotOrder);
    const std::string o = "odometry/";
    t.setInt(o + "timeDelays/delayBound", (int)k.bound);
    t.setInt(o + "timeDelays/dmi", (int)k.delays[0]); t.setInt(o + "timeDelays/frontWheels", (int)k.delays[1]); t.setInt(o + "timeDelays/rearWheels", (int)k.delays[2]); t.setInt(o + "timeDelays/steering", (int)k.delays[3]);
    t.setBool(o + "timeDelays/active", k.active);
    t.setDouble(o + "sensors/linearVelocityTolerance", k.tolerance); t.setInt(o + "sensors/wheelSpeedSensorCutoff", k.cutoff);
    for (const char* s : {"dmi/noise/dmi", "fws/noise/flw", "fws/noise/frw", "rws/noise/rlw", "rws/noise/rrw"}) t.setDouble(o + "sensors/" + s + "PercentError", 0.3);
    t.setDouble(o + "sensors/dmi/noise/dmiVariance", k.varDMI);
    t.setDouble(o + "sensors/fws/noise/flwVariance", k.varFL); t.setDouble(o + "sensors/fws/noise/frwVariance", k.varFR);
    t.setDouble(o + "sensors/rws/noise/rlwVariance", k.varRL); t.setDouble(o + "sensors/rws/noise/rrwVariance", k.varRR);
    t.setDouble(o + "sensors/st/noise/steeringVariance", k.varS);
    t.setDouble(o + "constraints/noise/vyVariance", k.varY); t.setDouble(o + "constraints/noise/vzVariance", k.varZ);
    const char* keys[] = {"halfRearTrack", "halfFrontTrack", "wheelBase", "steeringCoefficient0", "steeringCoefficient1", "steeringCoefficient2", "steeringCoefficient3", "rlwCoefficient", "rrwCoefficient", "flwCoefficient", "frwCoefficient", "dmiCoefficient"};
    const double values[] = {0.75, 0.875, 2.5, 0.125, 0.5, -0.25, 0.0625, 1.5, 1.25, 1.125, 0.9375, 0.625};
    for (int i = 0; i < 12; ++i) t.setDouble(o + "intrinsics/" + keys[i], values[i]);
    t.setDouble(o + "extrinsics/translation/x", 0.5); t.setDouble(o + "extrinsics/translation/y", -0.25); t.setDouble(o + "extrinsics/translation/z", 1.25);
    t.setDouble(o + "extrinsics/rotation/yaw", 0.6); t.setDouble(o + "extrinsics/rotation/pitch", -0.2); t.setDouble(o + "extrinsics/rotation/roll", 0.1);
    cal = boost::make_shared<CarCalibrator>(t);
    Vec want(22);
    want << 0.75, 0.875, 2.5, 1.5, 1.25, 1.125, 0.9375, 0.625, 0.125, 0.5, -0.25, 0.0625, 0.5, -0.25, 1.25, 0.6, -0.2, 0.1, k.delays[2] / 1e9, k.delays[1] / 1e9, k.delays[3] / 1e9, k.delays[0] / 1e9;
    MC_REQUIRE(near(parameters(), want, 1e-12), "the calibration does not start at the configuration: " << show(parameters()));
    for (DV* v : calibration()) {
      const bool fixed = v == dv().v_r_vr.get() || v == dv().v_R_r.get();
      const bool delay = v == dv().t_r.get() || v == dv().t_f.get() || v == dv().t_s.get() || v == dv().t_dmi.get();
      MC_REQUIRE(v->isActive() == (fixed ? false : delay ? k.active : true), "what is estimated is not what the configuration says");
    }
    params.push_back(parameters());
  }
  const OdometryDesignVariables& dv() const { return *cal->getOdometryDesignVariables(); }
  std::vector<DV*> calibration() const {
    const OdometryDesignVariables& d = dv();
    return {d.e_r.get(), d.e_f.get(), d.L.get(), d.a.get(), d.k_rl.get(), d.k_rr.get(), d.k_fl.get(), d.k_fr.get(), d.k_dmi.get(), d.v_r_vr.get(), d.v_R_r.get(), d.t_r.get(), d.t_f.get(), d.t_s.get(), d.t_dmi.get()};
  }
  Vec parameters() const {
    const OdometryDesignVariables& d = dv();
    Vec p(22);
    p << d.e_r->toScalar(), d.e_f->toScalar(), d.L->toScalar(), d.k_rl->toScalar(), d.k_rr->toScalar(), d.k_fl->toScalar(), d.k_fr->toScalar(), d.k_dmi->toScalar(), d.a->getValue(), d.v_r_vr->toEuclidean(), angles(d.v_R_r->toRotationMatrix()),
        delay(kRear) / 1e9, delay(kFront) / 1e9, delay(kSteer) / 1e9, delay(kDMI) / 1e9;
    return p;
  }
  typedef Path<CarCalibrator::TranslationSpline, CarCalibrator::RotationSpline> ThePath;
  ThePath path() const { return {cal->getTranslationSpline(), cal->getRotationSpline()}; }
  static boost::shared_ptr<OdometryDesignVariables::TimeDesignVariable> delayOf(const OdometryDesignVariables& d, int s) { return s == kDMI ? d.t_dmi : s == kFront ? d.t_f : s == kRear ? d.t_r : d.t_s; }
  Time delay(int s) const { return s < kDMI ? 0 : delayOf(dv(), s)->toScalar().getNumerator(); }
  // is the measurement of any use?
  bool used(int s, const Meas& m) const {
    const Time first = waiting[kPose].front().t, end = waiting[kPose].back().t;
    if (s == kPose) return true;
    if (s == kVel) return m.t >= first && m.t <= end;
    if ((s == kFront || s == kRear) && (m.a(0) < k.cutoff || m.a(1) < k.cutoff)) return false;
    const Time u = m.t + delay(s);
    if (u - k.bound < first || u + k.bound > end) return false;
    if (s == kFront || s == kRear) return path().velocity(u)(0) >= 0;
    if (s == kSteer) return std::fabs(path().velocityOf(V3(dv().L->toScalar(), 0, 0), u)(0)) >= k.tolerance;
    return true;
  }
  // the error terms a measurement leads to
  std::vector<Term> terms(int s, const Meas& m) const {
    const ThePath p = path();
    const OdometryDesignVariables* d = &dv();
    std::vector<Term> out;
    Term t;
    t.name = std::string(kNames[s]) + " at " + std::to_string(m.t);
    if (s == kPose) {
      t.error = [p, d, m]() {
        const M3 C = p.attitude(m.t);
        Vec e(6); e << m.a - p.position(m.t) - C * d->v_r_vr->toEuclidean(), m.b - angles(C * d->v_R_r->toRotationMatrix());
        for (int i = 3; i < 6; ++i) e(i) = wrap(e(i));
        return e;
      };
      t.dvs = {d->v_r_vr.get(), d->v_R_r.get()};
    } else if (s == kVel) {
      t.error = [p, d, m]() {
        const M3 C = d->v_R_r->toRotationMatrix().transpose();
        Vec e(6); e << m.a - C * p.velocityOf(d->v_r_vr->toEuclidean(), m.t), m.b - C * p.turnRate(m.t);
        return e;
      };
      t.dvs = {d->v_r_vr.get(), d->v_R_r.get()};
    }
    if (s <= kVel) {
      t.covariance = Mat::Zero(6, 6); t.covariance.topLeftCorner(3, 3) = m.sa; t.covariance.bottomRightCorner(3, 3) = m.sb;
      return {t};
    }
    boost::shared_ptr<OdometryDesignVariables::TimeDesignVariable> td = delayOf(*d, s);
    auto when = [m, td]() { return m.t + td->toScalar().getNumerator(); };
    if (s == kSteer) {
      t.error = [p, d, m, when]() {
        const V3 v = p.velocityOf(V3(d->L->toScalar(), 0, 0), when());
        const Eigen::Vector4d a = d->a->getValue();
        const double x = m.a(0);
        return Vec(Vec::Constant(1, wrap(a(0) + a(1) * x + a(2) * x * x + a(3) * x * x * x - std::atan2(v(1), v(0)))));
      };
      t.covariance = Mat::Constant(1, 1, k.varS);
      t.dvs = {d->L.get(), d->a.get(), td.get()};
      return {t};
    }
    for (int side = 0; side < (s == kDMI ? 1 : 2); ++side) {
      const boost::shared_ptr<aslam::backend::Scalar> f = s == kDMI ? d->k_dmi : s == kFront ? (side ? d->k_fr : d->k_fl) : (side ? d->k_rr : d->k_rl);
      const double sign = side ? -1 : 1, measured = m.a(side);
      const bool front = s == kFront;
      t.error = [=]() {
        const V3 v = p.velocityOf(front ? V3(d->L->toScalar(), sign * d->e_f->toScalar(), 0) : V3(0, sign * d->e_r->toScalar(), 0), when());
        // front wheels roll where they go
        if (front) return Vec(V3(measured - f->toScalar() * (std::signbit(v(0)) ? -1 : 1) * v.head<2>().norm(), 0, -v(2)));
        return Vec(V3(measured - f->toScalar() * v(0), -v(1), -v(2)));
      };
      t.covariance = V3(s == kDMI ? k.varDMI : front ? (side ? k.varFR : k.varFL) : (side ? k.varRR : k.varRL), k.varY, k.varZ).asDiagonal();
      t.dvs = {(front ? d->e_f : d->e_r).get(), f.get(), td.get()};
      if (front) t.dvs.push_back(d->L.get());
      out.push_back(t);
    }
    return out;
  }
  void checkCurves() const {
    std::vector<Time> t; std::vector<V3> r; std::vector<M3> C;
    for (auto& q : waiting[kPose]) {
      t.push_back(q.t);
      C.push_back(rotation(q.b) * dv().v_R_r->toRotationMatrix().transpose());
      r.push_back(q.a - C.back() * dv().v_r_vr->toEuclidean());
    }
    curves(path(), t, r, C, k.knots, k.transOrder, k.rotOrder, k.transLambda, k.rotLambda, t.size());
  }
  template <class F> void request(mc::Chooser& c, bool hands, const F& f) {
    bool seen = false;
    env.seen = nullptr;
    if (hands) {
      env.accept = c.flip();
      env.seen = [this, &c, &seen](IncrementalOptimizationProblem& all) {
        seen = true;
        checkCurves();
        std::vector<Term> want;
        Time room = 10 * ms;
        std::string n;
        for (int s : {kVel, kPose, kDMI, kFront, kRear, kSteer}) {
          if ((s == kVel && !k.velocities) || (s == kPose && !k.pose)) continue;
          const size_t before = want.size();
          for (auto& m : waiting[s]) if (used(s, m)) {
            for (auto& t : terms(s, m)) want.push_back(t);
            if (s > kVel) room = std::min(room, waiting[kPose].back().t - m.t - delay(s));
          }
          n += "/" + std::to_string(want.size() - before);
        }
        c.note(n);
        batch(c, all, path(), calibration(), [&] { return want; }, [&](DV* v, double by) { return (v != dv().t_r.get() && v != dv().t_f.get() && v != dv().t_s.get() && v != dv().t_dmi.get()) || room > by * 1e9; });
      };
    }
    const int before = env.optimisations;
    f();
    env.seen = nullptr;
    MC_REQUIRE((env.optimisations > before) == hands, (hands ? "no batch is handed to the estimator" : "a batch is handed to the estimator too early"));
    if (!hands) return;
    MC_REQUIRE(seen, "the estimator never saw the batch");
    gains.push_back(0.5 * (env.next() - (accepted ? env.log : 0)));
    if (env.accept || accepted == 0) { env.log = env.next(); ++accepted; }
    params.push_back(parameters());
    for (auto& w : waiting) w.clear();
    start = last;
    MC_REQUIRE((int)cal->getEstimator()->getNumBatches() == accepted, "the estimator keeps " << cal->getEstimator()->getNumBatches() << " batches instead of " << accepted);
  }
  void add(mc::Chooser& c, int s, const Meas& m) {
    const bool due = start != -1 && m.t - start >= (Time)std::llround(k.window * 1e9) && waiting[kPose].size() >= 2;
    last = m.t;
    if (start == -1) start = m.t;
    request(c, due, [&] {
      switch (s) {
        case kPose: { PoseMeasurement x; x.m_r_mr = m.a; x.m_R_r = m.b; x.sigma2_m_r_mr = m.sa; x.sigma2_m_R_r = m.sb; cal->addPoseMeasurement(x, m.t); break; }
        case kVel: { VelocitiesMeasurement x; x.r_v_mr = m.a; x.r_om_mr = m.b; x.sigma2_r_v_mr = m.sa; x.sigma2_r_om_mr = m.sb; cal->addVelocitiesMeasurement(x, m.t); break; }
        case kDMI: { DMIMeasurement x; x.wheelSpeed = m.a(0); cal->addDMIMeasurement(x, m.t); break; }
        case kSteer: { SteeringMeasurement x; x.value = m.a(0); cal->addSteeringMeasurement(x, m.t); break; }
        default: { WheelSpeedsMeasurement x; x.left = m.a(0); x.right = m.a(1); if (s == kFront) cal->addFrontWheelsMeasurement(x, m.t); else cal->addRearWheelsMeasurement(x, m.t); }
      }
    });
    waiting[s].push_back(m);
  }
  void process(mc::Chooser& c) { request(c, waiting[kPose].size() >= 2, [&] { cal->addMeasurements(); }); }
  void predict(mc::Chooser& c) {
    request(c, false, [&] { cal->predict(); });
    if (waiting[kPose].size() < 2) return;
    checkCurves();
    for (int s = 0; s < 6; ++s) for (auto& m : waiting[s]) if (used(s, m)) {
      Prediction p{m.t + delay(s), V3::Zero(), V3::Zero(), Vec(), 0};
      const std::vector<Term> ts = terms(s, m);
      for (auto& t : ts) {
        const Vec e = t.error();
        Vec both(p.error.size() + e.size()); both << p.error, e;
        p.error = both; p.cost += e.dot(t.covariance.inverse() * e);
      }
      if (s <= kVel) { p.a = m.a - p.error.head<3>(); p.b = m.b - p.error.tail<3>(); }
      else if (s == kSteer) {
        const V3 v = path().velocityOf(V3(dv().L->toScalar(), 0, 0), p.t);
        p.a(0) = std::atan2(v(1), v(0));
      } else for (size_t i = 0; i < ts.size(); ++i) p.a(i) = m.a(i) - p.error(3 * i);
      predictions[s].push_back(p);
    }
  }
  void clearPredictions() { cal->clearPredictions(); for (auto& p : predictions) p.clear(); }
  void clear() { cal->clearMeasurements(); for (auto& w : waiting) w.clear(); }

  template <class M, class F> void kept(const M& got, int s, const F& same) {
    MC_REQUIRE(got.size() == waiting[s].size(), kNames[s] << ": " << got.size() << " measurements are waiting instead of " << waiting[s].size());
    for (size_t i = 0; i < got.size(); ++i) MC_REQUIRE(got[i].first == waiting[s][i].t && same(got[i].second, waiting[s][i]), kNames[s] << ": the measurements waiting are others");
  }
  template <class M, class F> void predicted(const M& got, const std::vector<Vec>& e, const std::vector<double>& e2, int s, const F& same) {
    const std::vector<Prediction>& want = predictions[s];
    MC_REQUIRE(got.size() == want.size() && e.size() == want.size() && e2.size() == want.size(), kNames[s] << ": " << got.size() << " predictions instead of " << want.size());
    for (size_t i = 0; i < want.size(); ++i) {
      MC_REQUIRE(got[i].first == want[i].t, kNames[s] << ": predicted for " << got[i].first << " instead of " << want[i].t);
      MC_REQUIRE(same(got[i].second, want[i]), kNames[s] << ": prediction " << i << " is not " << show(want[i].a) << " " << show(want[i].b));
      MC_REQUIRE(near(e[i], want[i].error), kNames[s] << ": prediction error " << show(e[i]) << " instead of " << show(want[i].error));
      MC_REQUIRE(near(Mat::Constant(1, 1, e2[i]), Mat::Constant(1, 1, want[i].cost), 1e-5), kNames[s] << ": weighted prediction error " << e2[i] << " instead of " << want[i].cost);
    }
  }
  void observe(mc::Chooser& c) {
    c.check();
    const CarCalibrator& x = *cal;
    auto sameWheels = [](const WheelSpeedsMeasurement& a, const Meas& b) { return a.left == b.a(0) && a.right == b.a(1); };
    kept(x.getPoseMeasurements(), kPose, [](const PoseMeasurement& a, const Meas& b) { return a.m_r_mr == b.a && a.m_R_r == b.b; });
    kept(x.getVelocitiesMeasurements(), kVel, [](const VelocitiesMeasurement& a, const Meas& b) { return a.r_v_mr == b.a && a.r_om_mr == b.b; });
    kept(x.getDMIMeasurements(), kDMI, [](const DMIMeasurement& a, const Meas& b) { return a.wheelSpeed == b.a(0); });
    kept(x.getFrontWheelsMeasurements(), kFront, sameWheels);
    kept(x.getRearWheelsMeasurements(), kRear, sameWheels);
    kept(x.getSteeringMeasurements(), kSteer, [](const SteeringMeasurement& a, const Meas& b) { return a.value == b.a(0); });
    bool any = false;
    for (auto& w : waiting) any |= !w.empty();
    MC_REQUIRE(x.unprocessedMeasurements() == any, "unprocessedMeasurements() says " << x.unprocessedMeasurements());
    const std::vector<double> g = x.getInformationGainHistory();
    MC_REQUIRE(g.size() == gains.size(), "history of " << g.size() << " information gains after " << gains.size() << " batches");
    for (size_t i = 0; i < g.size(); ++i) MC_REQUIRE(near(Mat::Constant(1, 1, g[i]), Mat::Constant(1, 1, gains[i])), "information gain of batch " << i << ": " << g[i] << " instead of " << gains[i]);
    const std::vector<Vec> h = x.getOdometryVariablesHistory();
    MC_REQUIRE(h.size() == params.size(), "history of " << h.size() << " calibrations after " << gains.size() << " batches");
    for (size_t i = 0; i < h.size(); ++i) MC_REQUIRE(near(h[i], params[i], 1e-9), "calibration after batch " << i << ": " << show(h[i]) << " instead of " << show(params[i]));
    auto wheels = [](const WheelSpeedsMeasurement& a, const Prediction& b) { return near(V3(a.left, a.right, 0), b.a); };
    predicted(x.getPosePredictions(), x.getPosePredictionErrors(), x.getPosePredictionErrors2(), kPose, [](const PoseMeasurement& a, const Prediction& b) {
      bool ok = near(a.m_r_mr, b.a);
      for (int j = 0; j < 3; ++j) ok &= std::fabs(wrap(a.m_R_r(j) - b.b(j))) < 1e-6;
      return ok;
    });
    predicted(x.getVelocitiesPredictions(), x.getVelocitiesPredictionErrors(), x.getVelocitiesPredictionErrors2(), kVel, [](const VelocitiesMeasurement& a, const Prediction& b) { return near(a.r_v_mr, b.a) && near(a.r_om_mr, b.b); });
    predicted(x.getDMIPredictions(), x.getDMIPredictionErrors(), x.getDMIPredictionErrors2(), kDMI, [](const DMIMeasurement& a, const Prediction& b) { return near(V3(a.wheelSpeed, 0, 0), b.a); });
    predicted(x.getFrontWheelsPredictions(), x.getFrontWheelsPredictionErrors(), x.getFrontWheelsPredictionErrors2(), kFront, wheels);
    predicted(x.getRearWheelsPredictions(), x.getRearWheelsPredictionErrors(), x.getRearWheelsPredictionErrors2(), kRear, wheels);
    predicted(x.getSteeringPredictions(), x.getSteeringPredictionErrors(), x.getSteeringPredictionErrors2(), kSteer, [](const SteeringMeasurement& a, const Prediction& b) { return near(V3(a.value, 0, 0), b.a); });
  }
};

void histories(mc::Chooser& c) {
  World w(c, Config());
  Time t = 10 * ms;
  int n[6] = {0, 0, 0, 0, 0, 0};
  const int depth = mc::config().thorough() ? 6 : 5;
  for (int i = 0; i < depth; ++i) {
    const int a = c.choose(15);
    c.step();
    if (a < 12) {
      t += a % 2 ? 10 * ms : 30 * ms;
      const int s = a / 2;
      c.trace([&](std::ostream& o) { o << kNames[s] << " at " << t; });
      w.add(c, s, measurement(s, n[s]++, t));
    } else if (a == 12) { c.traceText("process"); w.process(c); }
    else if (a == 13) { const bool p = c.flip(); c.traceText(p ? "clear predictions" : "clear measurements"); if (p) w.clearPredictions(); else w.clear(); }
    else { c.traceText("predict"); w.predict(c); }
    if (c.fresh()) w.observe(c);
  }
  c.outcome(std::to_string(w.gains.size()) + "/" + std::to_string(w.accepted));
}
void windows(mc::Chooser& c) {
  Config k; k.bound = 0; k.knots = 60; k.delays[2] = 3 * ms; k.delays[1] = 4 * ms; k.cutoff = 0;
  World w(c, k);
  w.env.still = true;
  Time t = 10 * ms;
  const int depth = mc::config().thorough() ? 9 : 7;
  for (int i = 0; i < depth; ++i) {
    const int a = c.choose(6);
    c.step();
    t += a % 2 ? 10 * ms : 30 * ms;
    const int s = a / 2 == 0 ? kPose : a / 2 == 1 ? kFront : kRear;
    c.trace([&](std::ostream& o) { o << kNames[s] << " at " << t; });
    w.add(c, s, measurement(s, i, t));
    if (c.fresh()) w.observe(c);
  }
  c.outcome(std::to_string(w.gains.size()) + "/" + std::to_string(w.accepted));
}
void grid(mc::Chooser& c) {
  Config k;
  k.window = 10;
  const Time delays[] = {0, 4 * ms, -7 * ms, 60 * ms}, bounds[] = {0, 1 * ms, 3 * ms, 60 * ms};
  const int d = c.choose(4);
  for (int i = 0; i < 4; ++i) k.delays[i] = delays[(d + i) % 4];
  k.bound = bounds[c.choose(4)];
  k.active = c.flip(); k.pose = c.flip(); k.velocities = c.flip();
  static const int knots[] = {5, 100, 150};
  k.knots = knots[c.choose(3)];
  static const int counts[] = {2, 3, 6};
  const int n = counts[c.choose(3)], seed = c.choose(3);
  if (seed == 1) { k.transOrderGiven = false; k.rotOrder = 6; k.transLambda = 0; k.cutoff = 0; k.tolerance = 12; }
  if (seed == 2) { k.transOrder = 5; k.rotLambda = 0; k.tolerance = 0; }
  World w(c, k);
  w.env.still = true;
  for (int i = 0; i < n; ++i) w.add(c, kPose, measurement(kPose, i * (seed + 1) + seed, 100 * ms + i * 10 * ms));
  for (Time t = 80 * ms; t <= 170 * ms; t += ms) for (int s = 1; s < 6; ++s) {
    const Time u = t + w.delay(s);
    if (u % (10 * ms) == 0 && u > 100 * ms && u < 100 * ms + (n - 1) * 10 * ms) continue;
    w.add(c, s, measurement(s, (int)(t / ms), t));
  }
  c.step();
  w.predict(c);
  w.observe(c);
  std::string o;
  for (auto& p : w.predictions) o += "/" + std::to_string(p.size());
  c.outcome(o);
  if (k.pose || k.velocities) { w.process(c); w.observe(c); }
}
// Y01: what the calibration variables print is what they hold
void printedCar(mc::Chooser& c) {
  World w(c, Config());
  std::vector<DV*> v = w.calibration();
  for (int i = 0; i < (mc::config().thorough() ? 3 : 2); ++i) {
    DV* d = v[c.choose((int)v.size())];
    const double dp[] = {0.0625, -0.03125, 0.015625, 0.125};
    d->update(dp, d->minimalDimensions());
    c.trace([&](std::ostream& o) { o << "variable " << (std::find(v.begin(), v.end(), d) - v.begin()) << " changes"; });
    const Vec p = w.parameters();
    const auto& a = w.dv();
    text::printed(c, "the calibration", a, {{"e_r", text::one(p(0))}, {"e_f", text::one(p(1))}, {"L", text::one(p(2))}, {"k_rl", text::one(p(3))}, {"k_rr", text::one(p(4))}, {"k_fl", text::one(p(5))}, {"k_fr", text::one(p(6))}, {"k_dmi", text::one(p(7))},
      {"a", text::rows(Vec(p.segment(8, 4)))}, {"v_r_vr", text::rows(Vec(p.segment(12, 3)))}, {"v_R_r", text::rows(Vec(p.segment(15, 3)))}, {"t_r", text::one(p(18))}, {"t_f", text::one(p(19))}, {"t_s", text::one(p(20))}, {"t_dmi", text::one(p(21))}}, 1e-12);
    MC_REQUIRE(near(a.getParameters(), p, 1e-12), "the vector of parameters is " << show(a.getParameters()) << " instead of " << show(p));
  }
}
mc::Register y1("Y01", "car-calibration", printedCar, "every sequence of 2 (thorough: 3) changes to the car's calibration variables", 1, 1);
mc::Register h1("K01", "car-histories", histories, "every history of 5 (thorough: 6) requests: one of the six sensors 10 or 30 ms later (a window lasts 50 ms), process, clear, predict, clear predictions; every batch kept or rejected", 32, 2);
mc::Register h2("K01", "car-windows", windows, "every sequence of 7 (thorough: 9) poses, front and rear wheel speeds 10 or 30 ms apart, over several windows; every batch kept or rejected", 16, 2);
mc::Register h3("K01", "car-grid", grid, "time delays {0, 4, -7, 60} ms x bounds {0, 1, 3, 60} ms x {2, 3, 6} poses x every other sensor at every ms from 20 ms before to 20 ms after them x knots, orders, smoothing, cutoff, tolerance, sensors used, what is estimated", 16, 3);

void shippedCar(mc::Chooser& c) {
  sm::BoostPropertyTree t;
  shipped("incremental_calibration_examples/incremental_calibration_examples_car/conf/config.xml", t);
  Oracle env;
  c.check(); c.step();
  CarCalibrator x(sm::PropertyTree(t, "car/calibrator"));
  MC_REQUIRE(!x.unprocessedMeasurements(), "the calibrator is not as shipped");
  c.outcome("calibrator");
}
mc::Register h9("K01", "car-shipped", shippedCar, "the calibrator from the configuration that is shipped", 1, 1);
}  // namespace
MC_MAIN
