from seed import seed
X = "incremental_calibration_examples/incremental_calibration_examples_%s/"
CAR = X % "car" + "src/realworld/calibrator.cpp"
def lib(x): return [X % x + "src/" + g for g in ("algo/*.cpp", "design-variables/*.cpp", "error-terms/*.cpp")]

CARDEMO = """#include <demo_prog.hpp>
#include <verif_ros.hpp>
#define main program_main
#include <incremental_calibration_examples_car/src/realworld/calibrator.cpp>
#undef main
static void configure(double window) {
  Config c("car/calibrator/");
  c.num("windowDuration", window); c.flag("verbose", false); c.flag("usePose", true); c.flag("useVelocities", true);
  c.num("splines/transSplineLambda", 0.25); c.num("splines/rotSplineLambda", 0.5); c.integer("splines/splineKnotsPerSecond", 5); c.integer("splines/transSplineOrder", 4); c.integer("splines/rotSplineOrder", 4);
  const std::string o = "odometry/";
  for (const char* s : {"fws", "rws", "st", "dmi"}) { c.flag(o + "sensors/" + s + "/active", true); c.text(o + "sensors/" + s + "/topic", std::string("/") + s); }
  c.text("applanix/vns/topic", "/vns"); c.text("applanix/vnp/topic", "/vnp");
  c.integer(o + "timeDelays/delayBound", 0); c.flag(o + "timeDelays/active", false);
  for (const char* s : {"dmi", "frontWheels", "rearWheels", "steering"}) c.integer(o + "timeDelays/" + s, 0);
  c.num(o + "sensors/linearVelocityTolerance", 0); c.integer(o + "sensors/wheelSpeedSensorCutoff", 1);
  for (const char* s : {"dmi/noise/dmi", "fws/noise/flw", "fws/noise/frw", "rws/noise/rlw", "rws/noise/rrw"}) { c.num(o + "sensors/" + s + "PercentError", 0.3); c.num(o + "sensors/" + s + "Variance", 2); }
  c.num(o + "sensors/st/noise/steeringVariance", 0.25); c.num(o + "constraints/noise/vyVariance", 4); c.num(o + "constraints/noise/vzVariance", 8);
  for (const char* s : {"halfRearTrack", "halfFrontTrack", "wheelBase", "steeringCoefficient0", "steeringCoefficient1", "steeringCoefficient2", "steeringCoefficient3", "rlwCoefficient", "rrwCoefficient", "flwCoefficient", "frwCoefficient", "dmiCoefficient"}) c.num(o + "intrinsics/" + s, 1);
  for (const char* s : {"translation/x", "translation/y", "translation/z", "rotation/yaw", "rotation/pitch", "rotation/roll"}) c.num(o + "extrinsics/" + s, 0.125);
  c.integer("estimator/groupId", 1); c.num("estimator/infoGainDelta", 0.5); c.flag("estimator/checkValidity", false); c.flag("estimator/verbose", false);
}
template <class M> void say(const std::string& topic, M m, double t) { m.header.stamp = ros::Time((int64_t)(t * 1e9)); m.header.seq = (uint32_t)verif::bags()["bag"].size(); verif::bags()["bag"].push_back({topic, m.header.stamp, m}); }
static void accuracy(double t) { poslv::VehicleNavigationPerformanceMsg m; m.northPositionRMSError = m.eastPositionRMSError = m.downPositionRMSError = m.northVelocityRMSError = m.eastVelocityRMSError = m.downVelocityRMSError = m.rollRMSError = m.pitchRMSError = m.headingRMSError = 1; say("/vnp", m, t); }
static void where(double t, double lat = 47.4) { poslv::VehicleNavigationSolutionMsg m; m.timeDistance.time1 = t; m.latitude = lat + 1e-6 * t; m.longitude = 8.5; m.altitude = 450; m.northVelocity = 1; say("/vns", m, t); }
static void distance(double t, double d) { poslv::TimeTaggedDMIDataMsg m; m.timeDistance.time1 = t; m.signedDistanceTraveled = d; say("/dmi", m, t); }
"""
carlib = lib("car") + [X % "car" + "src/geo/*.cpp"]

seed("d01-backing", "D01", [(CAR, "      if (lastDMITimestamp != -1) {", "      if (lastDMIDistance >= 0) {")], CARDEMO + """
int main() {
  Scratch s; Still env; verif::Env::current() = &env;
  configure(1e6);
  accuracy(0.5);
  for (int i = 0; i < 6; ++i) { where(1 + i); distance(1.5 + i, 2 - i); }
  EXPECT(run(program_main, {"bag", "conf"}) == 0);
  const Table t = table("dmiData.txt");
  EXPECT(t.size() == 5);
  for (auto& r : t) EXPECT(near(r[1], -1));
  return 0;
}
""", "a vehicle that backs up behind where its distance was reset", "The speeds over negative distances are lost", kind="prog", sources=carlib)

seed("d01-leftovers", "D01", [(CAR, "  if (calibrator.unprocessedMeasurements())", "  if (calibrator.getInformationGainHistory().empty())")], CARDEMO + """
int main() {
  Scratch s; Still env; verif::Env::current() = &env;
  configure(10);
  accuracy(0.5);
  for (int i = 0; i < 16; ++i) { where(1 + i); distance(1.5 + i, i); }
  EXPECT(run(program_main, {"bag", "conf"}) == 0);
  EXPECT(table("infoGainHist.txt").size() == 2);
  return 0;
}
""", "a recording of more than one window, which does not end with one", "What comes after the last complete window is not used", kind="prog", sources=carlib)

SPL = X % "time_delay" + "src/algo/splinesToFile.cpp"
DELAY = """#include <demo_prog.hpp>
#define main program_main
#include <incremental_calibration_examples_time_delay/src/simulation/simulator.cpp>
#undef main
static void configure(double dt, double T, double window) {
  Config t("time-delay/");
  const std::string s = "simulation/params/", w = s + "calibration/odometry/wss/", k = "calibrator/";
  t.num(s + "trajectory/A", 15); t.num(s + "trajectory/f", 0.1); t.num(s + "T", T); t.num(s + "dt", dt);
  t.num(w + "b", 0.75); t.num(w + "k_l", 1.5); t.num(w + "k_r", 0.875); t.num(w + "t_l", 0); t.num(w + "t_r", 0);
  for (int i = 0; i < 3; ++i) {
    const std::string e = "/e" + std::to_string(i + 1);
    t.num(s + "calibration/v_T_p/v_r_vp" + e, 0.1 * i); t.num(s + "calibration/v_T_p/v_R_p" + e, 0.1 * i);
    t.num(s + "noise/pose/sigma2_w_r_wp" + e, 1e-12); t.num(s + "noise/pose/sigma2_w_R_p" + e, 1e-12);
  }
  t.num(s + "noise/odometry/wss/sigma2_l", 1e-12); t.num(s + "noise/odometry/wss/sigma2_r", 1e-12);
  t.num(k + "windowDuration", window); t.flag(k + "verbose", false); t.integer(k + "delayBound", 0);
  t.num(k + "splines/transSplineLambda", 0.25); t.num(k + "splines/rotSplineLambda", 0.5); t.integer(k + "splines/splineKnotsPerSecond", 5); t.integer(k + "splines/transSplineOrder", 4); t.integer(k + "splines/rotSplineOrder", 4);
  t.num(k + "odometry/sensors/wss/noise/lwVariance", 2); t.num(k + "odometry/sensors/wss/noise/rwVariance", 3); t.num(k + "odometry/constraints/noise/vyVariance", 4); t.num(k + "odometry/constraints/noise/vzVariance", 8);
  t.num(k + "odometry/intrinsics/halfWheelBase", 0.75); t.num(k + "odometry/intrinsics/lwCoefficient", 1.5); t.num(k + "odometry/intrinsics/rwCoefficient", 0.875);
  t.integer(k + "odometry/intrinsics/lwTimeDelay", 0); t.integer(k + "odometry/intrinsics/rwTimeDelay", 0); t.flag(k + "odometry/intrinsics/timeDelaysActive", false);
  for (const char* a : {"translation/x", "translation/y", "translation/z", "rotation/yaw", "rotation/pitch", "rotation/roll"}) t.num(k + "odometry/extrinsics/" + a, 0);
  t.flag(k + "odometry/extrinsics/translation/active", false); t.flag(k + "odometry/extrinsics/rotation/active", false);
  t.integer(k + "estimator/groupId", 1); t.num(k + "estimator/infoGainDelta", 0.5); t.flag(k + "estimator/checkValidity", false); t.flag(k + "estimator/verbose", false);
}
"""
delaylib = lib("time_delay") + [X % "time_delay" + "src/simulation/%s.cpp" % x for x in ("simulationEngine", "SimulationData", "SimulationParams", "Trajectory", "TrajectoryParams")] + ["incremental_calibration/src/statistics/*.cpp", "incremental_calibration/src/functions/*.cpp"]
DSIM = X % "time_delay" + "src/simulation/simulator.cpp"
seed("d02-noise-file", "D02", [(DSIM, "  data.lwData_nWrite(lwData_nFile);", "  data.lwDataWrite(lwData_nFile);")], DELAY + """
int main() {
  Scratch s; Still env; verif::Env::current() = &env;
  configure(0.1, 2.05, 1e6);
  Config("time-delay/").num("simulation/params/noise/odometry/wss/sigma2_l", 4);
  EXPECT(run(program_main, {"conf"}) == 0);
  const Table t = table("lwData.txt"), n = table("lwData_n.txt");
  EXPECT(t.size() > 5 && n.size() == t.size());
  double d = 0; for (size_t i = 0; i < t.size(); ++i) d += std::fabs(t[i][0] - n[i][0]);
  EXPECT(d > 1);
  return 0;
}
""", "noise on the left wheel", "The file of the noisy measurements has those without noise", kind="prog", sources=delaylib)

ESIM = X % "egomotion_sensors" + "src/simulation/simulator.cpp"
EGO = """#include <demo_prog.hpp>
#define main program_main
#include <incremental_calibration_examples_egomotion_sensors/src/simulation/simulator.cpp>
#undef main
static void configure(double dt, double T, double window, bool noisy) {
  Config t("egomotion/");
  const std::string p = "simulation/params/", k = "calibrator/";
  t.integer(p + "calibration/num", 1); t.integer(k + "sensors/num", 2);
  for (int i = 0; i < 2; ++i) {
    const std::string s = p + "calibration/sensor_" + std::to_string(i) + "/", n = p + "noise/sensor_" + std::to_string(i) + "/", e = k + "sensors/sensor_" + std::to_string(i) + "/";
    t.integer(s + "idx", i); t.integer(s + "intrinsics/timeDelay", 0); t.integer(n + "idx", i); t.integer(e + "idx", i); t.integer(e + "intrinsics/timeDelay", 0);
    for (const char* a : {"translation/x", "translation/y", "translation/z", "rotation/yaw", "rotation/pitch", "rotation/roll"}) { t.num(s + "extrinsics/" + a, 0); t.num(e + "extrinsics/" + a, 0); }
    for (int j = 0; j < 6; ++j) t.num(n + "e" + std::to_string(j + 1), 100);
    t.flag(e + "intrinsics/timeDelayActive", false); t.flag(e + "extrinsics/translation/active", i == 0); t.flag(e + "extrinsics/rotation/active", i == 0);
  }
  t.num(p + "T", T); t.num(p + "dt", dt); t.num(p + "trajectory/A", 15); t.num(p + "trajectory/f", 0.05); t.text(p + "trajectory/type", "straight");
  for (const char* a : {"x", "y", "z", "yaw", "pitch", "roll"}) t.num(p + std::string("trajectory/w_T_v_0/") + a, 0);
  t.num(p + "trajectory/splines/transSplineLambda", 0.5); t.num(p + "trajectory/splines/rotSplineLambda", 0.25); t.integer(p + "trajectory/splines/splineKnotsPerSecond", 1000); t.integer(p + "trajectory/splines/transSplineOrder", 4); t.integer(p + "trajectory/splines/rotSplineOrder", 4);
  t.integer(k + "referenceSensor", 1); t.flag(k + "useNoisyData", noisy);
  t.num(k + "windowDuration", window); t.flag(k + "verbose", false); t.integer(k + "delayBound", 0);
  t.num(k + "splines/transSplineLambda", 0.25); t.num(k + "splines/rotSplineLambda", 0.5); t.integer(k + "splines/splineKnotsPerSecond", 5); t.integer(k + "splines/transSplineOrder", 4); t.integer(k + "splines/rotSplineOrder", 4);
  t.integer(k + "estimator/groupId", 1); t.num(k + "estimator/infoGainDelta", 0.5); t.flag(k + "estimator/checkValidity", false); t.flag(k + "estimator/verbose", false);
}
"""
egolib = lib("egomotion_sensors") + [X % "egomotion_sensors" + "src/simulation/%s.cpp" % x for x in ("simulationEngine", "SimulationParams", "TrajectoryParams")] + ["incremental_calibration/src/statistics/*.cpp", "incremental_calibration/src/functions/*.cpp"]
seed("d02-noise-anyway", "D02", [(ESIM, """      for (const auto& motionData : data.motionData) {
        auto motion""", """      for (const auto& motionData : data.motionDataNoisy) {
        auto motion""")], EGO + """
int main() {
  Scratch s; Still env; verif::Env::current() = &env;
  configure(0.1, 2.05, 1e6, false);
  EXPECT(run(program_main, {"conf"}) == 0);
  // without noise, the curve is straight
  const Table t = table("w_T_v_est.txt");
  EXPECT(t.size() > 5);
  for (auto& r : t) EXPECT(std::fabs(r[1]) < 1e-3 && std::fabs(r[2]) < 1e-3);
  return 0;
}
""", "a configuration that asks for measurements without noise", "Measurements with noise are calibrated with", kind="prog", sources=egolib)

CAL = X % "camera" + "src/camera/calibrateCamera.cpp"
CAM = """#include <demo_prog.hpp>
#include <verif_camera.hpp>
#include <verif_ros.hpp>
#include <sensor_msgs/Image.h>
#define main program_main
#include <incremental_calibration_examples_camera/src/camera/calibrateCamera.cpp>
#undef main
static void configure(int batch, bool save) {
  Config t("camera/"); const std::string c = "calibrator/";
  t.text("rosTopic", "/cam"); t.text("cameraId", "cam"); t.integer("imageTime", 1);
  t.integer(c + "rows", 2); t.integer(c + "cols", 3); t.num(c + "rowSpacingMeters", 0.06); t.num(c + "colSpacingMeters", 0.05);
  t.flag(c + "plotCornerReprojection", false); t.flag(c + "imageStepping", false); t.flag(c + "filterCornerOutliers", true); t.num(c + "filterCornerSigmaThreshold", 2.5); t.num(c + "filterCornerMinReprojError", 0.25);
  t.text(c + "cameraProjectionType", "pinhole"); t.flag(c + "estimateLandmarks", false); t.integer(c + "landmarksGroupId", 2); t.integer(c + "calibrationGroupId", 0); t.integer(c + "transformationsGroupId", 1);
  t.integer(c + "batchNumImages", batch); t.flag(c + "useMEstimator", false); t.num(c + "sigma2", 0.25); t.flag(c + "verbose", false);
  t.integer(c + "estimator/groupId", 0); t.num(c + "estimator/infoGainDelta", -1); t.flag(c + "estimator/checkValidity", false); t.flag(c + "estimator/verbose", false);
  t.flag(c + "saveEstimatorImages", save); t.flag(c + "outputErrors", false);
}
static void show(bool target) {
  const int n = (int)verif::bags()["bag"].size();
  sensor_msgs::Image m; m.header.stamp = ros::Time(1000000000LL * (n + 1)); m.header.seq = n;
  m.verif = cv::Mat(480, 640, CV_8UC1); m.verif.scene = boost::make_shared<verif::Scene>();
  m.verif.scene->T_t_c = sm::kinematics::Transformation(Eigen::Vector4d(0, 0, 0, 1), Eigen::Vector3d(0, 0, -0.5));
  m.verif.scene->found = m.verif.scene->good = target;
  for (size_t i = 0; target && i < 6; ++i) m.verif.scene->corners[i] = Eigen::Vector2d(50 + i * i + n, 50 + 2 * i);
  verif::bags()["bag"].push_back({"/cam", m.header.stamp, m});
}
"""
camlib = [X % "camera" + "src/camera/Camera*.cpp", "incremental_calibration/src/statistics/*.cpp", "incremental_calibration/src/functions/*.cpp"]
seed("d03-stored-again", "D03", [(CAL, "        if (calibrator.getEstimatorObservations().size() != numObservations) {", "        if (calibrator.getEstimatorObservations().size() >= numObservations && numObservations) {")], CAM + """
int main() {
  Scratch s; Still env; verif::Env::current() = &env;
  configure(1, true);
  show(true); show(false); show(true);
  EXPECT(run(program_main, {"bag", "conf"}) == 0);
  std::set<std::string> names; for (auto& w : cv::verifWritten()) names.insert(w.name);
  rmdir("images");
  EXPECT(names.size() == 2 && !names.count("images/cam-2000000000.png"));
  return 0;
}
""", "images without a target after the first that is kept", "Images that the estimate does not use are stored", kind="prog", sources=camlib)
seed("d03-geometry", "D03", [(CAL, """      if (calibrator.initGeometry(cvImage->image))
        break;""", """      calibrator.initGeometry(cvImage->image);
      break;""")], CAM + """
int main() {
  Scratch s; Still env; verif::Env::current() = &env;
  configure(1, false);
  show(false); show(true); show(true);
  EXPECT(run(program_main, {"bag", "conf"}) == 0);
  EXPECT(aslam::cameras::GridDetector::last() && aslam::cameras::GridDetector::last()->geometry && aslam::cameras::GridDetector::last()->geometry->proj.norm() > 0);
  EXPECT(env.builds >= 2);
  return 0;
}
""", "a first image without a target", "The geometry is not started from a later one", kind="prog", sources=camlib)

NEW = X % "2dlrf" + "src/2dlrf/simulate-online-new.cpp"; OLD = X % "2dlrf" + "src/2dlrf/simulate-online.cpp"
LASER = """#include <demo_prog.hpp>
#define main program_main
#include <incremental_calibration_examples_2dlrf/src/2dlrf/%s.cpp>
#undef main
"""
laserlib = [X % "2dlrf" + "src/2dlrf/ErrorTerm*.cpp", X % "2dlrf" + "src/2dlrf/utils.cpp", "incremental_calibration/src/statistics/*.cpp", "incremental_calibration/src/functions/*.cpp"]
seed("d04-inputs", "D04", [(NEW, "        dv_xk.get(), T, u_noise[j], Q);", "        dv_xk.get(), T, u_noise[j - i], Q);")], LASER % "simulate-online-new" + """
struct Look : Still {
  double worst = 0; int n = 0;
  bool onOptimize(aslam::backend::Optimizer2& o, aslam::backend::SolutionReturnValue& s) override {
    // odometry is what was measured: it has no errors
    for (size_t i = 0; i < o.problem()->numErrorTerms(); ++i) if (auto* m = dynamic_cast<ErrorTermMotion*>(o.problem()->errorTerm(i))) { worst = std::max(worst, m->evaluateError()); ++n; }
    return Still::onOptimize(o, s);
  }
};
int main() {
  Scratch s; Look env; verif::Env::current() = &env;
  Config t("lrf/"); const std::string p = "problem/";
  t.integer(p + "steps", 8); t.num(p + "timestep", 0.1); t.num(p + "sineWaveAmplitude", 1); t.num(p + "sineWaveFrequency", 0.01); t.integer(p + "numLandmarks", 4);
  t.num(p + "groundMinX", 0); t.num(p + "groundMinY", 0); t.num(p + "groundMaxX", 30); t.num(p + "groundMaxY", 30);
  for (const char* a : {"x", "y", "t"}) { t.num(p + "motion/sigma2_" + a, 1e-4); t.num(p + "thetaTrue/" + a, 0.2); t.num(p + "thetaHat/" + a, 0.2); t.num(p + "x0/" + a, 1); }
  t.num(p + "observation/sigma2_r", 1e-4); t.num(p + "observation/sigma2_b", 1e-4);
  t.flag("estimator/checkValidity", false); t.num("estimator/infoGainDelta", -1); t.integer("estimator/groupId", 2); t.flag("estimator/verbose", false); t.integer("estimator/batchSize", 4);
  t.integer("estimator/optimizer/maxIterations", 20); t.flag("estimator/optimizer/verbose", false);
  EXPECT(run(program_main, {"conf"}) == 0);
  EXPECT(env.n >= 6 && env.worst < 1e-6);
  return 0;
}
""", "more than one batch", "The motions of later batches have the inputs of the first", kind="prog", sources=laserlib)

seed("d04-record", "D04", [(OLD, """      else
        batchIdx.pop_back();
""", """      else {
        batchIdx.pop_back();
        SigmaDetRecord = SigmaDet;
      }
""")], """#include <demo_prog.hpp>
int program_main(int, char**);

struct Say : Still {
  int at = 0;
  bool onOptimize(aslam::backend::Optimizer2&, aslam::backend::SolutionReturnValue& s) override { s.iterations = 1; s.JStart = s.JFinal = 1; return true; }
  bool onMarginalize(const cholmod_sparse*, std::ptrdiff_t, verif::SvdAnswer& a) override {
    // the second says less than the first, the third little more than the first
    static const double det[] = {64, 100, 45};
    const double d = det[at < 3 ? at : 2]; ++at;
    a.covariance = Eigen::Vector3d(d, 1, 1).asDiagonal(); a.matrixU = a.nullSpace = a.rowSpace = a.rowSpaceCovariance = Eigen::Matrix3d::Identity();
    return true;
  }
};
int main() {
  Scratch s; Say env; verif::Env::current() = &env;
  std::string text;
  EXPECT(run(program_main, {}, &text) == 0);
  const size_t p = text.rfind("Data used: ");
  EXPECT(p != std::string::npos && std::strtod(text.c_str() + p + 11, nullptr) == 4);
  return 0;
}
""", "a batch that is rejected because it takes information away, and one after it that restores it", "Gains are told from what was rejected", kind="prog", sources=laserlib, program="#define main program_main\n#include <incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online.cpp>\n")
