from seed import seed
L = "incremental_calibration/"
INC = L + "include/aslam/calibration/"
XX = "incremental_calibration_examples/incremental_calibration_examples_"
TD = XX + "time_delay/src/"
EGO = XX + "egomotion_sensors/src/"
CAR = XX + "car/src/"
LRF = XX + "2dlrf/src/2dlrf/"
MATHS = """#include <cmath>
static bool near(double a, double b, double t = 1e-7) { return std::fabs(a - b) <= t * (1 + std::fabs(b)); }
"""

seed("j01-bearing-wrap", "J01", [(LRF + "ErrorTermObservation.cpp", """angleMod(_b - (atan2(bb, aa) -
        (_xk->getValue())(2) - (_Theta->getValue())(2)));""", """angleMod(_b) -
        sm::kinematics::angleMod(atan2(bb, aa) -
        (_xk->getValue())(2) - (_Theta->getValue())(2));""")], MATHS + """#include <demo_core.hpp>
#include "%sErrorTermObservation.cpp"
int main() {
  VectorDesignVariable<3> x(Eigen::Vector3d(0, 0, 0)), th(Eigen::Vector3d(0, 0, 0));
  Eigen::Matrix2d R = Eigen::Matrix2d::Identity();
  for (double phi : {0.3, 2.0, 3.1}) for (double b : {0.2, -1.0, -3.1}) {
    VectorDesignVariable<2> l(Eigen::Vector2d(2 * cos(phi), 2 * sin(phi)));
    ErrorTermObservation e(&x, &l, &th, 2.5, b, R);
    e.evaluateError();
    EXPECT(near(e.error()(0), 0.5));
    EXPECT(near(e.error()(1), std::remainder(b - phi, 2 * M_PI)));
  }
  return 0;
}
""" % LRF, "a measured and a predicted bearing on either side of the rear", "The error of a bearing jumps by a whole turn", also=())

seed("j01-assigned-parameters", "J01", [(CAR + "error-terms/ErrorTermSteering.cpp", """       _sigma2 = other._sigma2;
       _params = other._params;
""", """       _sigma2 = other._sigma2;
       if (!_params)
         _params = other._params;
""")], MATHS + """#include <demo_core.hpp>
#include <aslam/backend/EuclideanPoint.hpp>
#include "%serror-terms/ErrorTermSteering.cpp"
int main() {
  auto v = boost::make_shared<aslam::backend::EuclideanPoint>(Eigen::Vector3d(2, 0, 0));
  VectorDesignVariable<4> a(Eigen::Vector4d(0.1, 0, 0, 0)), b(Eigen::Vector4d(-0.2, 0, 0, 0));
  ErrorTermSteering s(aslam::backend::EuclideanExpression(v), 0.5, 1, &a), t(aslam::backend::EuclideanExpression(v), 0.25, 2, &b);
  s.evaluateError(); EXPECT(near(s.error()(0), 0.1));
  s = t;
  s.evaluateError(); EXPECT(near(s.error()(0), -0.2));
  return 0;
}
""" % CAR, "assigning an error term that depends on other parameters", "The assigned term evaluates the old parameters and reports derivatives of the new ones", also=())

CONF = """
static void common(sm::PropertyTree& t, double window) {
  t.setInt("estimator/groupId", 1); t.setDouble("estimator/infoGainDelta", -1); t.setBool("estimator/checkValidity", false); t.setBool("estimator/verbose", false);
  t.setDouble("windowDuration", window); t.setBool("verbose", false);
  t.setDouble("splines/transSplineLambda", 0); t.setDouble("splines/rotSplineLambda", 0); t.setInt("splines/splineKnotsPerSecond", 5); t.setInt("splines/transSplineOrder", 4); t.setInt("splines/rotSplineOrder", 4);
}
"""
DELAY = MATHS + """#include <demo_core.hpp>
#include <sm/BoostPropertyTree.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
""" + "".join('#include "%s%s.cpp"\n' % (TD, f) for f in ("algo/bestQuat", "algo/OptimizationProblemSpline", "algo/CalibratorOptions", "algo/Calibrator", "design-variables/OdometryDesignVariables", "error-terms/ErrorTermPose", "error-terms/ErrorTermWheel")) + CONF + """
static sm::BoostPropertyTree conf(double window) {
  sm::BoostPropertyTree t; common(t, window); t.setInt("delayBound", 1000000);
  t.setDouble("odometry/sensors/wss/noise/lwVariance", 0.5); t.setDouble("odometry/sensors/wss/noise/rwVariance", 0.125); t.setDouble("odometry/constraints/noise/vyVariance", 4); t.setDouble("odometry/constraints/noise/vzVariance", 8);
  t.setDouble("odometry/intrinsics/halfWheelBase", 0.75); t.setDouble("odometry/intrinsics/lwCoefficient", 1.5); t.setDouble("odometry/intrinsics/rwCoefficient", 0.875); t.setInt("odometry/intrinsics/lwTimeDelay", 0); t.setInt("odometry/intrinsics/rwTimeDelay", 0); t.setBool("odometry/intrinsics/timeDelaysActive", true);
  for (const char* k : {"translation/x", "translation/y", "translation/z", "rotation/yaw", "rotation/pitch", "rotation/roll"}) t.setDouble(std::string("odometry/extrinsics/") + k, 0.1);
  t.setBool("odometry/extrinsics/translation/active", true); t.setBool("odometry/extrinsics/rotation/active", true);
  return t;
}
struct Watch : Script {
  std::vector<aslam::backend::ErrorTerm*> terms;
  virtual void onInitStructure(const std::vector<aslam::backend::DesignVariable*>& d, const std::vector<aslam::backend::ErrorTerm*>& e) { Script::onInitStructure(d, e); terms = e; }
};
static PoseMeasurement pose(double x) { PoseMeasurement p; p.w_r_wp = Eigen::Vector3d(x, 0, 0); p.w_R_p = Eigen::Vector3d(x, 0, 0); p.sigma2_w_r_wp = p.sigma2_w_R_p = Eigen::Matrix3d::Identity(); return p; }
static WheelSpeedMeasurement wheel(double v) { WheelSpeedMeasurement w; w.value = v; return w; }
static const long ms = 1000000;
"""
seed("k01-late-window", "K01", [(TD + "algo/Calibrator.cpp", """      clearMeasurements();
      _currentBatchStartTimestamp = _lastTimestamp;""", """      clearMeasurements();
      _currentBatchStartTimestamp += secToNsec(_options.windowDuration);""")], DELAY + """
int main() {
  Watch env; verif::Env::current() = &env;
  Calibrator c(conf(0.05));
  for (int t : {0, 10, 20, 30, 40, 50, 60, 70}) c.addPoseMeasurement(pose(t * 1e-3), t * ms);
  EXPECT(c.getInformationGainHistory().size() == 1);
  // nothing for a while: the window ends with the first measurement after it, and the next one starts there
  c.addPoseMeasurement(pose(0.5), 500 * ms); EXPECT(c.getInformationGainHistory().size() == 2);
  for (int t : {510, 520, 530, 540}) { c.addPoseMeasurement(pose(t * 1e-3), t * ms); EXPECT(c.getInformationGainHistory().size() == 2); }
  c.addPoseMeasurement(pose(0.55), 550 * ms); EXPECT(c.getInformationGainHistory().size() == 3);
  return 0;
}
""", "a pause longer than a window", "After a pause every measurement ends a window of its own")

seed("k01-delay-of-the-other", "K01", [(TD + "algo/Calibrator.cpp", """    void Calibrator::addRightWheelErrorTerms(const WheelSpeedMeasurements&
        measurements, const OptimizationProblemSplineSP& batch) {
      for (auto it = measurements.cbegin(); it != measurements.cend(); ++it) {
        auto timestamp = it->first;
        auto timeDelay = _odometryDesignVariables->t_r->toExpression();
        auto timestampDelay = timeDelay +
          GenericScalarExpression<OdometryDesignVariables::Time>(timestamp);
        auto Tmax = _translationSpline->getMaxTime();
        auto Tmin = _translationSpline->getMinTime();
        auto lBound = -_options.delayBound +
          timestampDelay.toScalar().getNumerator();
        auto uBound = _options.delayBound +
          timestampDelay.toScalar().getNumerator();

        if(uBound > Tmax || lBound < Tmin)""", """    void Calibrator::addRightWheelErrorTerms(const WheelSpeedMeasurements&
        measurements, const OptimizationProblemSplineSP& batch) {
      for (auto it = measurements.cbegin(); it != measurements.cend(); ++it) {
        auto timestamp = it->first;
        auto timeDelay = _odometryDesignVariables->t_r->toExpression();
        auto timestampDelay = timeDelay +
          GenericScalarExpression<OdometryDesignVariables::Time>(timestamp);
        auto Tmax = _translationSpline->getMaxTime();
        auto Tmin = _translationSpline->getMinTime();
        auto lBound = -_options.delayBound +
          timestampDelay.toScalar().getNumerator();
        auto uBound = _options.delayBound +
          timestampDelay.toScalar().getNumerator();

        // the spline need not be fitted beyond its last but one knot
        if(uBound >= Tmax || lBound <= Tmin)""")], DELAY + """
int main() {
  Watch env; verif::Env::current() = &env;
  Calibrator c(conf(10));
  for (int t : {0, 10, 20}) c.addPoseMeasurement(pose(t * 1e-3), t * ms);
  for (int t : {0, 1, 10, 19, 20}) { c.addLeftWheelMeasurement(wheel(t), t * ms); c.addRightWheelMeasurement(wheel(t), t * ms); }
  c.addMeasurements();
  int left = 0, right = 0;
  for (auto* e : env.terms) if (auto* w = dynamic_cast<ErrorTermWheel*>(e)) (w->getCovariance()(0, 0) == 0.5 ? left : right)++;
  EXPECT(left == 3 && right == 3);
  return 0;
}
""", "a right wheel measurement exactly at the bound of the delay from the ends of the curves", "Usable measurements of the right wheel at the ends of the window are not used")

seed("k01-rejected-history", "K01", [(EGO + "algo/Calibrator.cpp", """      for (const auto& designVariable : designVariables_->calibrationVariables_)
        designVariablesHistory_[designVariable.first].push_back(
          designVariables_->getParameters(designVariable.first));
      infoGainHistory_.push_back(ret.informationGain);""", """      for (const auto& designVariable : designVariables_->calibrationVariables_) {
        auto& history = designVariablesHistory_[designVariable.first];
        // a rejected batch does not change the calibration
        history.push_back(ret.batchAccepted || history.empty() ?
          designVariables_->getParameters(designVariable.first) :
          history.front());
      }
      infoGainHistory_.push_back(ret.informationGain);""")], MATHS + """#include <demo_core.hpp>
#include <sm/BoostPropertyTree.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
""" + "".join('#include "%s%s.cpp"\n' % (EGO, f) for f in ("algo/bestQuat", "algo/OptimizationProblemSpline", "algo/CalibratorOptions", "algo/Calibrator", "design-variables/DesignVariables")) + CONF + """
struct Move : Script {
  virtual bool onOptimize(aslam::backend::Optimizer2& o, aslam::backend::SolutionReturnValue& s) {
    Script::onOptimize(o, s);
    for (auto* v : o.designVariables()) { Eigen::VectorXd u = Eigen::VectorXd::Constant(v->minimalDimensions(), 1e-3); v->update(u.data(), (int)u.size()); }
    return true; }
};
int main() {
  Move env; verif::Env::current() = &env;
  sm::BoostPropertyTree t; common(t, 1000); t.setDouble("estimator/infoGainDelta", 0.5); t.setInt("referenceSensor", 0); t.setInt("delayBound", 1000000);
  t.setInt("sensors/num", 2);
  for (int i = 0; i < 2; ++i) {
    const std::string s = "sensors/sensor_" + std::to_string(i) + "/";
    t.setInt(s + "idx", i); t.setInt(s + "intrinsics/timeDelay", 0); t.setBool(s + "intrinsics/timeDelayActive", true); t.setBool(s + "extrinsics/rotation/active", true); t.setBool(s + "extrinsics/translation/active", true);
    for (const char* k : {"rotation/yaw", "rotation/pitch", "rotation/roll", "translation/x", "translation/y", "translation/z"}) t.setDouble(s + "extrinsics/" + k, 0.1);
  }
  Calibrator c(t);
  for (int i = 1; i < 4; ++i) {
    env.log = i < 3 ? 10 * i : 20;     // the third one brings nothing
    for (int k = 0; k < 6; ++k) for (size_t s : {0, 1}) { MotionMeasurement m; m.motion = sm::kinematics::Transformation(Eigen::Vector4d(0, 0, 0, 1), Eigen::Vector3d(0.1, 0, 0)); m.duration = 10000000; m.sigma2.setIdentity(); c.addMotionMeasurement(m, (long)(i * 100 + k) * 10000000, s); }
    c.addMeasurements();
    const auto h = c.getDesignVariablesHistory().at(1);
    EXPECT((int)c.getInformationGainHistory().size() == i);
    EXPECT((h.back() - c.getDesignVariables()->getParameters(1)).norm() < 1e-12);
  }
  return 0;
}
""", "a batch that is rejected after another one was kept", "The history of the calibration returns to its first entry with a rejected batch")

SIMD = MATHS + """#include <cstdio>
#include <iostream>
#define EXPECT(x) do { if (!(x)) { std::cerr << "line " << __LINE__ << ": not " << #x << std::endl; return 1; } } while (0)
#include <demo_core.hpp>
#include <sm/PropertyTree.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
""" + "".join('#include "%ssrc/%s.cpp"\n' % (L, f) for f in ("statistics/NormalDistribution1v",)) + "".join('#include "%ssimulation/%s.cpp"\n' % (TD, f) for f in ("SimulationData", "SimulationParams", "Trajectory", "TrajectoryParams", "simulationEngine"))
seed("w01-lever-of-the-pose", "W01", [(TD + "simulation/simulationEngine.cpp", """          data.trajectory.w_T_v.back().C() * params.v_T_p.t();""", """          data.trajectory.w_T_v.back().C() * params.v_T_p.C() *
          params.v_T_p.t();""")], SIMD + """
int main() {
  const sm::kinematics::EulerAnglesYawPitchRoll ypr;
  for (int i = 0; i < 4; ++i) {
    SimulationParams p; p.T = 1.05; p.sigma2_l = p.sigma2_r = 1e-12;
    const Eigen::Vector3d t(i & 1, 2 * (i & 1), 0), a(i & 2, 0, 0);
    p.v_T_p = sm::kinematics::Transformation(sm::kinematics::rt2Transform(ypr.parametersToRotationMatrix(a), t));
    SimulationData d; simulate(p, d);
    EXPECT(d.poseData.size() == 10);
    for (size_t k = 0; k < 10; ++k) EXPECT((d.poseData[k].second.w_r_wp - d.trajectory.w_T_v[k + 1].t() - d.trajectory.w_T_v[k + 1].C() * t).norm() < 1e-9);
  }
  return 0;
}
""", "a pose sensor that is both displaced and turned", "Simulated positions of a displaced and turned pose sensor are those of another place on the vehicle")
seed("w01-reverse-order", "W01", [(EGO + "simulation/simulationEngine.cpp", """              auto w_T_s = r_T_s.inverse() * prevTransformation.inverse() *
                currentTransformation * r_T_s;""", """              // motion of the sensor
              auto w_T_s = r_T_s.inverse() * prevTransformation.inverse() *
                currentTransformation;
              w_T_s = Transformation(qplus(w_T_s.q(), r_T_s.q()),
                w_T_s.t() + r_T_s.t());""")], SIMD.replace(TD, EGO).replace('#include "%ssimulation/SimulationData.cpp"\n' % EGO, "").replace('#include "%ssimulation/Trajectory.cpp"\n' % EGO, '#include "%salgo/bestQuat.cpp"\n#include <bsplines/BSplineFitter.hpp>\n' % EGO) + """
int main() {
  for (int i = 0; i < 4; ++i) {
    sm::PropertyTree t;
    t.setInt("egomotion/calibrator/referenceSensor", 0); t.setInt("s/calibration/num", 1);
    t.setInt("s/calibration/sensor_0/idx", 1); t.setInt("s/calibration/sensor_0/intrinsics/timeDelay", 5);
    const double yaw = i & 1 ? 0.5 : 0, x = i & 2 ? 2 : 0;
    for (const char* k : {"rotation/pitch", "rotation/roll", "translation/y", "translation/z"}) t.setDouble(std::string("s/calibration/sensor_0/extrinsics/") + k, 0);
    t.setDouble("s/calibration/sensor_0/extrinsics/rotation/yaw", yaw); t.setDouble("s/calibration/sensor_0/extrinsics/translation/x", x);
    t.setDouble("s/dt", 0.1); t.setDouble("s/T", 2.05);
    for (int k = 0; k < 2; ++k) { const std::string n = "s/noise/sensor_" + std::to_string(k) + "/"; t.setInt(n + "idx", k); for (int j = 1; j < 7; ++j) t.setDouble(n + "e" + std::to_string(j), 1e-12); }
    t.setDouble("s/trajectory/A", 15); t.setDouble("s/trajectory/f", 0.05); t.setString("s/trajectory/type", "sine");
    for (const char* k : {"yaw", "pitch", "roll", "x", "y", "z"}) t.setDouble(std::string("s/trajectory/w_T_v_0/") + k, 0);
    t.setDouble("s/trajectory/splines/transSplineLambda", 0); t.setDouble("s/trajectory/splines/rotSplineLambda", 0); t.setInt("s/trajectory/splines/splineKnotsPerSecond", 5); t.setInt("s/trajectory/splines/transSplineOrder", 4); t.setInt("s/trajectory/splines/rotSplineOrder", 4);
    const SimulationParams p(sm::PropertyTree(t, "s"), t);
    SimulationData d; simulate(p, d);
    const auto& r = d.motionData.at(0); const auto& s = d.motionData.at(1);
    EXPECT(r.size() == 20 && s.size() == 20);
    for (int k = 0; k < 20; ++k) {
      const Eigen::Matrix3d C = Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ()).toRotationMatrix();
      const Eigen::Vector3d l(x, 0, 0), want = C.transpose() * (r[k].second.motion.C() * l + r[k].second.motion.t() - l);
      EXPECT((s[k].second.motion.t() - want).norm() < 1e-9);
      EXPECT((s[k].second.motion.C() - C.transpose() * r[k].second.motion.C() * C).norm() < 1e-9);
    }
  }
  return 0;
}
""", "a displaced sensor on a turning vehicle", "The simulated motion of a displaced sensor misses its lever arm")
seed("w02-altitude", "W02", [(CAR + "geo/geodetic.cpp", "      z = (R * (1 - e2) + altitude) * slat;", "      z = (R + altitude) * (1 - e2) * slat;")], MATHS + """#include <demo_core.hpp>
#include <sm/kinematics/Transformation.hpp>
#include "%sgeo/geodetic.cpp"
int main() {
  for (double lat : {0.0, 0.8, -1.2}) for (double lon : {0.0, 2.0}) {
    double a[3], b[3];
    wgs84ToEcef(lat, lon, 0, a[0], a[1], a[2]); wgs84ToEcef(lat, lon, 1000, b[0], b[1], b[2]);
    EXPECT(near(b[0] - a[0], 1000 * cos(lat) * cos(lon), 1e-6)); EXPECT(near(b[1] - a[1], 1000 * cos(lat) * sin(lon), 1e-6)); EXPECT(near(b[2] - a[2], 1000 * sin(lat), 1e-6));
  }
  return 0;
}
""" % CAR, "an altitude other than zero away from the equator", "Positions above the ellipsoid are too low along its axis by a fraction of the altitude")
