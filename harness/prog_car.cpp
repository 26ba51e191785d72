// D01: the programs of the car against a model of what a recording says.
#include <programs/prog_common.hpp>
#include <programs/car_recorder.hpp>

#include <aslam/calibration/car/design-variables/OdometryDesignVariables.h>
#include <aslam/backend/EuclideanPoint.hpp>
#include <aslam/backend/RotationQuaternion.hpp>
#include <verif_ros.hpp>

int car_calibrator_main(int, char**);
int car_analyzer_main(int, char**);

using namespace prog;
namespace {
enum Sensor { kPose, kVel, kDMI, kFront, kRear, kSteer };
const char* kNames[] = {"pose", "velocities", "DMI", "front wheels", "rear wheels", "steering"};
const char* kTopics[] = {"/fws", "/rws", "/st", "/dmi", "/vns", "/vnp", "/gps"};
enum Kind { kFws, kRws, kSt, kDmi, kVns, kVnp, kOther };
typedef recorder::Given Given;
const double deg = M_PI / 180;

struct Setup {
  bool use[4];   // fws, rws, st, dmi
  bool delays = false, pose = true, velocities = true;
  double window = 1e6;
};
void configure(const Setup& k) {
  auto& t = config("conf");
  auto num = [&](const std::string& n, double v) { std::ostringstream o; o.precision(17); o << v; t["car/calibrator/" + n] = o.str(); };
  auto flag = [&](const std::string& n, bool v) { t["car/calibrator/" + n] = v ? "true" : "false"; };
  auto integer = [&](const std::string& n, long v) { t["car/calibrator/" + n] = std::to_string(v); };
  num("windowDuration", k.window); flag("verbose", false); flag("usePose", k.pose); flag("useVelocities", k.velocities);
  num("splines/transSplineLambda", 0.25); num("splines/rotSplineLambda", 0.5); integer("splines/splineKnotsPerSecond", 5); integer("splines/transSplineOrder", 4); integer("splines/rotSplineOrder", 4);
  const std::string o = "odometry/";
  static const char* sensors[] = {"fws", "rws", "st", "dmi"};
  for (int i = 0; i < 4; ++i) { flag(o + "sensors/" + sensors[i] + "/active", k.use[i]); t["car/calibrator/" + o + "sensors/" + sensors[i] + "/topic"] = kTopics[i]; }
  t["car/calibrator/applanix/vns/topic"] = kTopics[kVns]; t["car/calibrator/applanix/vnp/topic"] = kTopics[kVnp];
  integer(o + "timeDelays/delayBound", 0);
  for (const char* s : {"dmi", "frontWheels", "rearWheels", "steering"}) integer(o + "timeDelays/" + s, 0);
  flag(o + "timeDelays/active", k.delays);
  num(o + "sensors/linearVelocityTolerance", 0); num(o + "sensors/wheelSpeedSensorCutoff", 1); integer(o + "sensors/wheelSpeedSensorCutoff", 1);
  for (const char* s : {"dmi/noise/dmi", "fws/noise/flw", "fws/noise/frw", "rws/noise/rlw", "rws/noise/rrw"}) { num(o + "sensors/" + s + "PercentError", 0.3); num(o + "sensors/" + s + "Variance", 2); }
  num(o + "sensors/st/noise/steeringVariance", 0.25); num(o + "constraints/noise/vyVariance", 4); num(o + "constraints/noise/vzVariance", 8);
  static const char* keys[] = {"halfRearTrack", "halfFrontTrack", "wheelBase", "steeringCoefficient0", "steeringCoefficient1", "steeringCoefficient2", "steeringCoefficient3", "rlwCoefficient", "rrwCoefficient", "flwCoefficient", "frwCoefficient", "dmiCoefficient"};
  static const double values[] = {0.75, 0.875, 2.5, 0.125, 0.5, -0.25, 0.0625, 1.5, 1.25, 1.125, 0.9375, 0.625};
  for (int i = 0; i < 12; ++i) num(o + "intrinsics/" + keys[i], values[i]);
  for (const char* s : {"translation/x", "translation/y", "translation/z", "rotation/yaw", "rotation/pitch", "rotation/roll"}) num(o + "extrinsics/" + s, 0.125);
  integer("estimator/groupId", 1); num("estimator/infoGainDelta", 0.5); flag("estimator/checkValidity", false); flag("estimator/verbose", false);
}

// where the vehicle is: degrees, metres; attitude: degrees; velocities
struct Nav { double lat, lon, alt, roll, pitch, heading, vn, ve, vd, p, q, r; };
Nav nav(int place, int i) {
  static const double start[][3] = {{47.4, 8.5, 450}, {-33.9, -70.6, 520}};
  Nav n;
  n.lat = start[place][0] + 3e-6 * i; n.lon = start[place][1] + (i % 3) * 8e-6; n.alt = start[place][2] + 0.25 * (i % 4);
  n.roll = 1.5 + i; n.pitch = -2 + 0.5 * i; n.heading = 30 + 80 * i + 100 * place;
  n.vn = 5 + i; n.ve = -3 + 2 * i; n.vd = 0.5 - i; n.p = 2 + i; n.q = -1 + i; n.r = 10 - i;
  return n;
}
poslv::VehicleNavigationPerformanceMsg accuracy(int i) {
  poslv::VehicleNavigationPerformanceMsg m;
  m.northPositionRMSError = 0.5f + i; m.eastPositionRMSError = 2.25f; m.downPositionRMSError = 4.5f;
  m.northVelocityRMSError = 0.25f; m.eastVelocityRMSError = 0.75f + i; m.downVelocityRMSError = 1.5f;
  m.rollRMSError = 0.5f; m.pitchRMSError = 1; m.headingRMSError = 3.f + i;
  return m;
}

// the point of the ellipsoid with that normal, and then along the normal
V3 earth(const Nav& n, M3& ned) {
  const double a = 6378137, b = a * (1 - 1 / 298.257223563), lat = n.lat * deg, lon = n.lon * deg;
  const V3 up(std::cos(lat) * std::cos(lon), std::cos(lat) * std::sin(lon), std::sin(lat)), east(-std::sin(lon), std::cos(lon), 0);
  const double r = std::sqrt(a * a * (up(0) * up(0) + up(1) * up(1)) + b * b * up(2) * up(2));
  ned.col(0) = up.cross(east); ned.col(1) = east; ned.col(2) = -up;
  return V3(a * a * up(0) / r, a * a * up(1) / r, b * b * up(2) / r) + n.alt * up;
}

struct Model {
  Setup k;
  int place = 0;
  std::vector<verif::BagMessage> bag;
  std::vector<Given> want;
  std::vector<V3> angle;
  Table files[6];    // what is measured, as written
  Time t = 1000 * ms;
  int n[7] = {0, 0, 0, 0, 0, 0, 0}, corrected[6] = {0, 0, 0, 0, 0, 0};
  bool first = true, known = false;
  poslv::VehicleNavigationPerformanceMsg perf;
  V3 origin; M3 enu;
  double lastDistance = 0, lastTime = 0;

  Time corrected_(int s, double remote) { const double late = 1000 * corrected[s]++ + 10 * std::fmod(std::fabs(remote), 97) + 0.25; return (Time)std::llround((double)t - late); }
  void give(int s, Time at, const V3& a, const V3& b = V3::Zero(), const M3& sa = M3::Zero(), const M3& sb = M3::Zero()) { want.push_back({s, at, a, b, sa, sb}); }
  void message(int kind) {
    const int i = n[kind]++;
    t += 10 * ms;
    std_msgs::Header h;
    h.seq = 100 + 7 * i; h.stamp = ros::Time(t);
    const double s = t / 1e9, own = t / 1e9 - 0.5 + 0.0001 * i;
    verif::BagMessage m;
    m.topic = kTopics[kind]; m.time = ros::Time(t + 5);
    if (kind == kFws || kind == kRws) {
      const double l = 400 + 7 * i + kind, r = 390 + 11 * i;
      if (kind == kFws) { can_prius::FrontWheelsSpeedMsg x; x.header = h; x.Left = l; x.Right = r; m.content = x; } else { can_prius::RearWheelsSpeedMsg x; x.header = h; x.Left = l; x.Right = r; m.content = x; }
      if (k.use[kind]) { give(kind == kFws ? kFront : kRear, corrected_(kind == kFws ? kFront : kRear, h.seq), V3(l, r, 0)); files[kind].push_back({s, l, r}); }
    } else if (kind == kSt) {
      can_prius::Steering1Msg x; x.header = h; x.value = -40 + 25 * i; m.content = x;
      if (k.use[kind]) { give(kSteer, corrected_(kSteer, h.seq), V3(x.value, 0, 0)); files[kind].push_back({s, (double)x.value}); }
    } else if (kind == kDmi) {
      poslv::TimeTaggedDMIDataMsg x; x.header = h; x.timeDistance.time1 = own; x.signedDistanceTraveled = -1 + 0.8 * i - 0.15 * i * i; x.unsignedDistanceTraveled = 1000 + i; m.content = x;
      if (k.use[kind] && i) {
        const double v = (x.signedDistanceTraveled - lastDistance) / (own - lastTime);
        give(kDMI, corrected_(kDMI, (double)std::llround(own * 1e9)), V3(v, 0, 0)); files[kind].push_back({s, v});
      }
      lastDistance = x.signedDistanceTraveled; lastTime = own;
    } else if (kind == kVnp) {
      perf = accuracy(i); perf.header = h; known = true; m.content = perf;
    } else if (kind == kVns) {
      poslv::VehicleNavigationSolutionMsg x; x.header = h; x.timeDistance.time1 = own;
      const Nav v = nav(place, i);
      x.latitude = v.lat; x.longitude = v.lon; x.altitude = v.alt; x.roll = v.roll; x.pitch = v.pitch; x.heading = v.heading; x.northVelocity = v.vn; x.eastVelocity = v.ve; x.downVelocity = v.vd; x.angularRateLong = v.p; x.angularRateTrans = v.q; x.angularRateDown = v.r;
      x.speed = 77; x.accLong = 5; x.wander = 3; m.content = x;
      if (known) {
        M3 ned;
        const V3 at = earth(v, ned);
        if (first) { origin = at; enu.col(0) = ned.col(1); enu.col(1) = ned.col(0); enu.col(2) = -ned.col(2); first = false; }
        const M3 map = enu.transpose() * ned, body = rotation(V3(v.heading, v.pitch, v.roll) * deg);
        const V3 sp = V3(perf.northPositionRMSError, perf.eastPositionRMSError, perf.downPositionRMSError).cwiseAbs2(), sv = V3(perf.northVelocityRMSError, perf.eastVelocityRMSError, perf.downVelocityRMSError).cwiseAbs2();
        const V3 sa = (V3(perf.headingRMSError, perf.pitchRMSError, perf.rollRMSError) * deg).cwiseAbs2();
        const Time when = corrected_(kPose, (double)std::llround(own * 1e9));
        const V3 r = enu.transpose() * (at - origin), ypr = angles(map * body), vel = body.transpose() * V3(v.vn, v.ve, v.vd), om = V3(v.p, v.q, v.r) * deg;
        const M3 Sp = map * sp.asDiagonal() * map.transpose(), Sv = body.transpose() * sv.asDiagonal() * body;
        const V3 so(sa(2), sa(1), sa(0));
        give(kPose, when, r, ypr, Sp, sa.asDiagonal());
        give(kVel, when, vel, om, Sv, so.asDiagonal());
        Vec f(13); f << s, r, ypr, Sp.diagonal(), sa; files[4].push_back(row(f));
        f << s, vel, om, Sv.diagonal(), so; files[5].push_back(row(f));
      }
    } else { poslv::TimeTaggedDMIDataMsg x; x.header = h; x.timeDistance.time1 = 3; m.content = x; }
    bag.push_back(m);
  }
};

bool sameGiven(const Given& a, const Given& b) {
  if (a.sensor != b.sensor || std::llabs(a.t - b.t) > 1 || !near(a.a, b.a, 1e-6)) return false;
  if (a.sensor > kVel) return true;
  if (a.sensor == kPose ? !near(rotation(a.b), rotation(b.b), 1e-9) : !near(a.b, b.b, 1e-9)) return false;
  return near(a.sa, b.sa, 1e-6) && near(a.sb, b.sb, 1e-9);
}
std::string describe(const Given& g) { std::ostringstream o; o << kNames[g.sensor] << " at " << g.t << ": " << calib::show(g.a) << " " << calib::show(g.b) << " " << calib::show(g.sa) << " " << calib::show(g.sb); return o.str(); }

template <class M, class F> Table predictions(const M& m, const F& f) {
  Table t;
  for (auto& x : m) { Vec v = f(x.second); Vec r(v.size() + 1); r << x.first / 1e9, v; t.push_back(row(r)); }
  return t;
}
Table errors(const std::vector<Vec>& e) { Table t; for (auto& x : e) t.push_back(row(x)); return t; }

// Runs a program on a recording.
void execute(mc::Chooser& c, Model& m, bool calibrate, bool accept) {
  using namespace aslam::calibration;
  configure(m.k);
  verif::bags()["bag"] = m.bag;
  recorder::Car::given().clear(); recorder::Car::asked().clear();
  Watch<recorder::Car, CarCalibrator::TranslationSpline, CarCalibrator::RotationSpline> env(c, accept, []() { return recorder::Car::current(); });
  const int& batches = env.batches;
  auto& kept = env.kept;
  struct End { std::vector<double> gains; std::vector<Vec> history; Vec variances; Table curves; std::map<std::string, Table> predicted; int more = 0; } end;
  recorder::Car::atEnd() = [&](recorder::Car& x) {
    end.gains = x.getInformationGainHistory();
    end.history = x.getOdometryVariablesHistory();
    end.variances = x.getOdometryVariablesVariance();
    for (auto& p : kept) curve(end.curves, p, 10 * ms);
    auto& P = end.predicted;
    auto wheels = [](const WheelSpeedsMeasurement& y) { return Vec(Eigen::Vector2d(y.left, y.right)); };
    P["rwDataPred.txt"] = predictions(x.getRearWheelsPredictions(), wheels); P["rwPredError.txt"] = errors(x.getRearWheelsPredictionErrors());
    P["fwDataPred.txt"] = predictions(x.getFrontWheelsPredictions(), wheels); P["fwPredError.txt"] = errors(x.getFrontWheelsPredictionErrors());
    P["stDataPred.txt"] = predictions(x.getSteeringPredictions(), [](const SteeringMeasurement& y) { return Vec(Vec::Constant(1, y.value)); }); P["stPredError.txt"] = errors(x.getSteeringPredictionErrors());
    P["dmiDataPred.txt"] = predictions(x.getDMIPredictions(), [](const DMIMeasurement& y) { return Vec(Vec::Constant(1, y.wheelSpeed)); }); P["dmiPredError.txt"] = errors(x.getDMIPredictionErrors());
    P["poseDataPred.txt"] = predictions(x.getPosePredictions(), [](const PoseMeasurement& y) { Vec v(6); v << y.m_r_mr, y.m_R_r; return v; }); P["posePredError.txt"] = errors(x.getPosePredictionErrors());
    P["velDataPred.txt"] = predictions(x.getVelocitiesPredictions(), [](const VelocitiesMeasurement& y) { Vec v(6); v << y.r_v_mr, y.r_om_mr; return v; }); P["velPredError.txt"] = errors(x.getVelocitiesPredictionErrors());
    // nothing is left that could be used
    const int before = batches;
    if (calibrate) try { x.addMeasurements(); } catch (const std::exception&) {}
    end.more = batches - before;
  };
  c.step(); c.check();
  int rc = -1;
  try { rc = run(calibrate ? car_calibrator_main : car_analyzer_main, {"bag", "conf"}); }
  catch (const mc::Violation&) { recorder::Car::atEnd() = nullptr; throw; }
  recorder::Car::atEnd() = nullptr;
  MC_REQUIRE(rc == 0, "the program ends with " << rc);

  // what the calibrator was given
  std::vector<Given>& got = recorder::Car::given();
  MC_REQUIRE(got.size() == m.want.size(), got.size() << " measurements reach the calibrator instead of " << m.want.size());
  for (size_t i = 0; i < got.size(); ++i) {
    if (!sameGiven(got[i], m.want[i])) {
      // pose and velocities of one message come in any order
      if (i + 1 < got.size() && got[i].sensor == kVel && sameGiven(got[i], m.want[i + 1]) && sameGiven(got[i + 1], m.want[i])) { ++i; continue; }
      MC_FAIL("measurement " << i << " is " << describe(got[i]) << " instead of " << describe(m.want[i]));
    }
  }
  // the files
  same("fwData.txt", m.files[kFws]); same("rwData.txt", m.files[kRws]); same("stData.txt", m.files[kSt]); same("dmiData.txt", m.files[kDmi], 1e-6);
  same("poseData.txt", m.files[4], 1e-6, {4, 5, 6}); same("velData.txt", m.files[5], 1e-6);
  same(calibrate ? "m_T_v_est.txt" : "m_T_v.txt", end.curves, 1e-7, {3, 4, 5});
  if (calibrate) {
    Table g, h;
    for (double x : end.gains) g.push_back({x});
    for (auto& x : end.history) h.push_back(row(x));
    same("infoGainHist.txt", g); same("calibHist.txt", h);
    MC_REQUIRE(!end.more, "the program ends without using what is recorded last");
    MC_REQUIRE((int)end.gains.size() == batches, end.gains.size() << " gains for " << batches << " batches");
    // deviations: of what is estimated, under its own name
    std::map<std::string, double> dev;
    {
      std::istringstream f(text("deviations.txt"));
      std::string l;
      while (std::getline(f, l)) {
        const size_t at = l.find(": ");
        MC_REQUIRE(at != std::string::npos, "deviations.txt: " << l);
        MC_REQUIRE(dev.emplace(l.substr(0, at), std::strtod(l.c_str() + at + 2, nullptr)).second, "deviations.txt: two lines for " << l.substr(0, at));
      }
    }
    static const char* names[] = {"e_r", "e_f", "L", "a0", "a1", "a2", "a3", "k_rl", "k_rr", "k_fl", "k_fr", "k_dmi", "t_r", "t_f", "t_s", "t_dmi"};
    const int estimated = end.variances.size() ? (m.k.delays ? 16 : 12) : 0;
    MC_REQUIRE(end.variances.size() == estimated, end.variances.size() << " variances");
    for (int i = 0; i < 16; ++i) {
      const auto it = dev.find(names[i]);
      if (i < 12 && i < estimated) MC_REQUIRE(it != dev.end(), "deviations.txt says nothing of " << names[i]);
      if (i >= estimated) MC_REQUIRE(it == dev.end(), "deviations.txt has a deviation of " << names[i] << ", which is not estimated");
      if (it == dev.end()) continue;
      const double want = std::sqrt(end.variances(i));
      MC_REQUIRE(std::fabs(it->second - want) <= 1e-9 * (1 + want), "deviations.txt: " << it->second << " for " << names[i] << " instead of " << want);
      dev.erase(it);
    }
    for (auto& d : dev) MC_FAIL("deviations.txt has a deviation of " << d.first << ", which is not estimated");
  } else {
    MC_REQUIRE(batches == 0, "the analyser estimates");
    for (auto& p : end.predicted) same(p.first, p.second, 1e-9, p.first == "poseDataPred.txt" ? std::set<int>{4, 5, 6} : std::set<int>());
  }
  size_t pred = 0;
  for (auto& p : end.predicted) pred += p.second.size();
  c.outcome(std::to_string(batches) + "/" + std::to_string(kept.size()) + "/" + std::to_string(got.size()) + "/" + std::to_string(end.curves.size()) + "/" + std::to_string(pred));
}

void recordings(mc::Chooser& c) {
  Model m;
  const bool calibrate = c.flip();
  const int f = c.choose(3);
  for (int i = 0; i < 4; ++i) m.k.use[i] = f == 0 || (f == 1 && i % 2 == 0) || (f == 2 && i % 2);
  m.place = f % 2; m.k.delays = f == 1;
  const int depth = mc::config().thorough() ? 6 : 5;
  std::string s;
  for (int i = 0; i < depth; ++i) { const int x = c.choose(7); m.message(x); s += kTopics[x]; }
  c.trace([&](std::ostream& o) { o << (calibrate ? "calibrator: " : "analyser: ") << s; });
  c.note(std::to_string(calibrate) + std::to_string(f) + s);
  execute(c, m, calibrate, true);
}
mc::Register h1("D01", "recordings", recordings, "both programs on every recording of 5 (thorough: 6) messages of six topics and one that is not asked for; three choices of the sensors used", 32, 4);

void drives(mc::Chooser& c) {
  Model m;
  const bool calibrate = c.flip(), accept = calibrate ? c.flip() : true;
  const int f = c.choose(16);
  for (int i = 0; i < 4; ++i) m.k.use[i] = (f >> i) & 1;
  m.place = c.choose(2); m.k.delays = c.flip();
  const int what = c.choose(3);
  m.k.pose = what != 1; m.k.velocities = what != 2;
  static const double windows[] = {0.25, 0.6, 1e6};
  // the analyser is for recordings that fit in one window
  m.k.window = calibrate ? windows[c.choose(3)] : 1e6;
  static const int orders[][6] = {{5, 4, 0, 1, 2, 3}, {3, 2, 5, 1, 4, 0}, {4, 3, 4, 5, 4, 1}};
  const int o = c.choose(3), n = mc::config().thorough() ? 240 : 60;
  for (int i = 0; i < n; ++i) m.message(orders[o][i % 6]);
  c.trace([&](std::ostream& os) { os << (calibrate ? "calibrator" : "analyser") << ", sensors " << f << ", place " << m.place << ", order " << o << ", window " << m.k.window; });
  execute(c, m, calibrate, accept);
}
mc::Register h2("D01", "drives", drives, "both programs on recordings of 60 (thorough: 240) messages in three orders: every choice of the sensors used x places x window lengths (of the calibrator) x pose, velocities or both x time delays estimated or not x batches kept or rejected", 16, 4);

void usage(mc::Chooser& c) {
  const bool calibrate = c.flip();
  const int n = c.choose(5);
  Model m; for (bool& x : m.k.use) x = true;
  m.k.pose = m.k.velocities = true; m.k.delays = false; m.k.window = 1e6;
  for (int x : {5, 4, 0, 1, 2, 3}) m.message(x);
  configure(m.k);
  verif::bags()["bag"] = m.bag;
  recorder::Car::given().clear(); recorder::Car::asked().clear();
  Watch<recorder::Car, CarCalibrator::TranslationSpline, CarCalibrator::RotationSpline> env(c, true, []() { return recorder::Car::current(); });
  auto* program = calibrate ? car_calibrator_main : car_analyzer_main;
  c.step(); c.check();
  if (n == 2) {
    bool threw = false;
    try { run(program, {"bag", "nowhere"}); } catch (const mc::Violation&) { throw; } catch (const std::exception&) { threw = true; }
    MC_REQUIRE(threw, "no complaint about a configuration that is not there");
  } else {
    static const char* arguments[] = {"bag", "conf", "conf", "conf"};
    MC_REQUIRE(run(program, std::vector<std::string>(arguments, arguments + n)) != 0, "no complaint about " << n << " arguments");
  }
  MC_REQUIRE(recorder::Car::given().empty() && env.batches == 0, "something is done without a recording and a configuration");
  c.outcome(std::to_string(n));
}
mc::Register h3("D01", "usage", usage, "both programs with too few, too many and wrong arguments", 1, 1);
}  // namespace
MC_MAIN
