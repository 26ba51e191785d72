// D02: the simulation program of the time-delay example.
#include <programs/prog_common.hpp>
#include <programs/delay_recorder.hpp>

int delay_simulator_main(int, char**);
using namespace prog;
namespace {
typedef recorder::Given Given;
typedef recorder::Delay Delay;

void runs(mc::Chooser& c) {
  const bool th = mc::config().thorough();
  const bool accept = c.flip();
  const double dt = c.pick(std::vector<double>{0.1, 0.25, 0.04});
  const int steps = c.pick(th ? std::vector<int>{0, 1, 2, 3, 5, 8, 13, 21, 60, 150} : std::vector<int>{0, 1, 2, 3, 7, 21});
  const double T = dt * (steps + 0.5), A = c.pick(std::vector<double>{0, 15, -3}), f = c.pick(std::vector<double>{0.01, 0.3});
  const double window = dt * c.pick(std::vector<double>{1.5, 4.5, 1e6});
  const int active = c.choose(4), noise = c.choose(2), delayed = c.choose(2);
  std::ostringstream nm;
  nm << "dt " << dt << ", " << steps << " steps, A " << A << ", f " << f << ", window " << window << ", estimated " << active << ", noise " << noise << (delayed ? ", wheels late" : "") << (accept ? ", kept" : ", rejected");
  const std::string name = nm.str();
  c.trace([&](std::ostream& o) { o << name; });
  c.note(name);
  auto& t = config("conf");
  auto num = [&](const std::string& n, double v) { std::ostringstream o; o.precision(17); o << v; t["time-delay/" + n] = o.str(); };
  auto integer = [&](const std::string& n, long v) { t["time-delay/" + n] = std::to_string(v); };
  auto flag = [&](const std::string& n, bool v) { t["time-delay/" + n] = v ? "true" : "false"; };
  const std::string s = "simulation/params/", w = s + "calibration/odometry/wss/", k = "calibrator/";
  num(s + "trajectory/A", A); num(s + "trajectory/f", f); num(s + "T", T); num(s + "dt", dt);
  num(w + "b", 0.75); num(w + "k_l", 1.5); num(w + "k_r", 0.875); num(w + "t_l", delayed ? 0.03 : 0); num(w + "t_r", delayed ? 0.07 : 0);
  static const double r[] = {0.5, -0.25, 1.25}, a[] = {0.6, -0.2, 0.1};
  for (int i = 0; i < 3; ++i) {
    const std::string e = "/e" + std::to_string(i + 1);
    num(s + "calibration/v_T_p/v_r_vp" + e, r[i]); num(s + "calibration/v_T_p/v_R_p" + e, a[i]);
    num(s + "noise/pose/sigma2_w_r_wp" + e, (i + 1) * (noise ? 0.25 : 1e-12)); num(s + "noise/pose/sigma2_w_R_p" + e, (i + 2) * (noise ? 0.0625 : 1e-12));
  }
  num(s + "noise/odometry/wss/sigma2_l", noise ? 2 : 1e-12); num(s + "noise/odometry/wss/sigma2_r", noise ? 3 : 1e-12);
  num(k + "windowDuration", window); flag(k + "verbose", false); integer(k + "delayBound", 0);
  num(k + "splines/transSplineLambda", 0.25); num(k + "splines/rotSplineLambda", 0.5); integer(k + "splines/splineKnotsPerSecond", 5); integer(k + "splines/transSplineOrder", 4); integer(k + "splines/rotSplineOrder", 4);
  num(k + "odometry/sensors/wss/noise/lwVariance", 2); num(k + "odometry/sensors/wss/noise/rwVariance", 3); num(k + "odometry/constraints/noise/vyVariance", 4); num(k + "odometry/constraints/noise/vzVariance", 8);
  num(k + "odometry/intrinsics/halfWheelBase", 0.75); num(k + "odometry/intrinsics/lwCoefficient", 1.5); num(k + "odometry/intrinsics/rwCoefficient", 0.875);
  integer(k + "odometry/intrinsics/lwTimeDelay", 0); integer(k + "odometry/intrinsics/rwTimeDelay", 0); flag(k + "odometry/intrinsics/timeDelaysActive", active & 1);
  static const char* xs[] = {"x", "y", "z"}; static const char* as[] = {"yaw", "pitch", "roll"};
  for (int i = 0; i < 3; ++i) { num(k + "odometry/extrinsics/translation/" + xs[i], r[i]); num(k + "odometry/extrinsics/rotation/" + as[i], a[i]); }
  flag(k + "odometry/extrinsics/translation/active", active & 2); flag(k + "odometry/extrinsics/rotation/active", active & 2);
  integer(k + "estimator/groupId", 1); num(k + "estimator/infoGainDelta", 0.5); flag(k + "estimator/checkValidity", false); flag(k + "estimator/verbose", false);

  Delay::given().clear(); Delay::simulations() = 0;
  Watch<Delay, Delay::TranslationSpline, Delay::RotationSpline> env(c, accept, []() { return Delay::current(); });
  std::vector<double> gains; std::vector<Vec> history; Table curves; bool ended = false; int more = 0;
  Delay::atEnd() = [&](Delay& x) {
    ended = true; gains = x.getInformationGainHistory(); history = x.getOdometryVariablesHistory();
    for (auto& p : env.kept) curve(curves, p, sm::timing::secToNsec(dt));
    // nothing is left that could be used
    const int before = env.batches;
    try { x.addMeasurements(); } catch (const std::exception&) {}
    more = env.batches - before;
  };
  c.step(); c.check();
  int rc = -1;
  try { rc = run(delay_simulator_main, {"conf"}); } catch (...) { Delay::atEnd() = nullptr; throw; }
  Delay::atEnd() = nullptr;
  MC_REQUIRE(rc == 0 && ended && Delay::simulations() == 1, name << ": the program ends with " << rc);

  const SimulationData& d = Delay::data();
  MC_REQUIRE((int)d.lwData.size() == steps, name << ": " << d.lwData.size() << " steps");
  // what is simulated is what is calibrated
  std::vector<std::vector<Given> > want;
  for (int i = 0; i < steps; ++i) {
    const auto &p = d.poseData_n[i]; const auto &l = d.lwData_n[i], &q = d.rwData_n[i];
    want.push_back({{0, p.first, Delay::pose(p.second)}, {1, l.first, Vec::Constant(1, l.second.value)}, {2, q.first, Vec::Constant(1, q.second.value)}});
  }
  sameSteps(Delay::given(), want);
  const double digits = 1e-5;
  Table f1, f2, f3;
  for (auto& x : d.trajectory.w_T_v) { Vec v(6); v << x.t(), angles(x.C()); f1.push_back(row(v)); }
  same("w_T_v.txt", f1, 1e-9, {3, 4, 5});
  auto vectors = [](const std::vector<V3>& x) { Table y; for (auto& v : x) y.push_back(row(v)); return y; };
  same("w_v_wwl.txt", vectors(d.w_v_wwl), digits); same("w_v_wwr.txt", vectors(d.w_v_wwr), digits);
  auto wheels = [](const MeasurementsContainer<WheelSpeedMeasurement>::Type& x) { Table y; for (auto& v : x) y.push_back({v.second.value}); return y; };
  same("lwData.txt", wheels(d.lwData), digits); same("rwData.txt", wheels(d.rwData), digits); same("lwData_n.txt", wheels(d.lwData_n), digits); same("rwData_n.txt", wheels(d.rwData_n), digits);
  auto poses = [](const MeasurementsContainer<PoseMeasurement>::Type& x) { Table y; for (auto& v : x) { Vec u(6); u << v.second.w_r_wp, v.second.w_R_p; y.push_back(row(u)); } return y; };
  same("poseData.txt", poses(d.poseData), digits); same("poseData_n.txt", poses(d.poseData_n), digits);
  // and how it ends
  Table g, h;
  for (double x : gains) g.push_back({x});
  for (auto& x : history) h.push_back(row(x));
  same("w_T_v_est.txt", curves, 1e-7, {3, 4, 5}); same("infoGainHist.txt", g); same("calibHist.txt", h);
  MC_REQUIRE(!more, name << ": the program ends without using what is measured last");
  MC_REQUIRE((int)gains.size() == env.batches, name << ": " << gains.size() << " gains for " << env.batches << " batches");
  MC_REQUIRE(steps < 2 || env.batches > 0, name << ": nothing is estimated");
  c.outcome(std::to_string(steps) + "/" + std::to_string(env.batches) + "/" + std::to_string(env.kept.size()) + "/" + std::to_string(curves.size()));
}
mc::Register r1("D02", "time-delay", runs, "the program on every combination of time steps, durations, trajectories, window lengths, sets of estimated variables, noise, delays of the wheels, and batches kept or rejected, of a lattice", 16, 4);

void usage(mc::Chooser& c) {
  const int n = c.choose(4);
  Watch<Delay, Delay::TranslationSpline, Delay::RotationSpline> env(c, true, []() { return Delay::current(); });
  Delay::given().clear(); Delay::simulations() = 0;
  sm::BoostPropertyTree::files().clear();
  c.step(); c.check();
  if (n == 1) {
    bool threw = false;
    try { run(delay_simulator_main, {"nowhere"}); } catch (const mc::Violation&) { throw; } catch (const std::exception&) { threw = true; }
    MC_REQUIRE(threw, "no complaint about a configuration that is not there");
  } else {
    MC_REQUIRE(run(delay_simulator_main, std::vector<std::string>(n, "conf")) != 0, "no complaint about " << n << " arguments");
  }
  MC_REQUIRE(Delay::simulations() == 0 && Delay::given().empty(), "something is simulated without a configuration");
  c.outcome(std::to_string(n));
}
mc::Register r2("D02", "time-delay-usage", usage, "the program without, with too many, and with wrong arguments", 1, 1);
}  // namespace
MC_MAIN
