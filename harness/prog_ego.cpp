// D02: the simulation program of the egomotion example.
#include <programs/prog_common.hpp>
#include <programs/ego_recorder.hpp>

int ego_simulator_main(int, char**);
using namespace prog;
namespace {
typedef recorder::Given Given;
typedef recorder::Ego Ego;

void runs(mc::Chooser& c) {
  const bool th = mc::config().thorough();
  const bool accept = c.flip();
  static const char* types[] = {"straight", "sine", "random", "combined"};
  const std::string type = types[c.choose(4)];
  const double dt = c.pick(std::vector<double>{0.1, 0.25});
  const int steps = c.pick(th ? std::vector<int>{1, 2, 3, 5, 8, 13, 21, 60, 150} : std::vector<int>{1, 2, 3, 7, 21});
  const double T = dt * (steps + 0.5), window = dt * c.pick(std::vector<double>{2.5, 5.5, 1e6});
  const int others = c.choose(3), ref = c.flip() ? 3 : 12, active = c.choose(3), noise = c.choose(2), noisy = c.choose(2);
  std::ostringstream nm;
  nm << type << ", dt " << dt << ", " << steps << " steps, window " << window << ", " << others << " other sensors, reference " << ref << ", estimated " << active << ", noise " << noise << (noisy ? ", with it" : ", without it") << (accept ? ", kept" : ", rejected");
  const std::string name = nm.str();
  c.trace([&](std::ostream& o) { o << name; });
  c.note(name);
  static const int ids[] = {7, 0};
  auto& t = config("conf");
  auto num = [&](const std::string& n, double v) { std::ostringstream o; o.precision(17); o << v; t["egomotion/" + n] = o.str(); };
  auto integer = [&](const std::string& n, long v) { t["egomotion/" + n] = std::to_string(v); };
  auto flag = [&](const std::string& n, bool v) { t["egomotion/" + n] = v ? "true" : "false"; };
  auto word = [&](const std::string& n, const std::string& v) { t["egomotion/" + n] = v; };
  const std::string p = "simulation/params/", k = "calibrator/";
  static const char* xs[] = {"x", "y", "z"}; static const char* as[] = {"yaw", "pitch", "roll"};
  integer(p + "calibration/num", others); integer(k + "sensors/num", others + 1);
  for (int i = 0; i <= others; ++i) {
    const std::string s = p + "calibration/sensor_" + std::to_string(i) + "/", n = p + "noise/sensor_" + std::to_string(i) + "/", e = k + "sensors/sensor_" + std::to_string(i) + "/";
    const int id = i < others ? ids[i] : ref;
    if (i < others) { integer(s + "idx", id); integer(s + "intrinsics/timeDelay", i ? -5000000 : 20000000); }
    for (int j = 0; j < 3; ++j) {
      const double r = i == others ? 0 : 0.5 * i - 0.25 * j, a = i == others ? 0 : 0.25 * i + 0.125 * j;
      if (i < others) { num(s + "extrinsics/translation/" + xs[j], r); num(s + "extrinsics/rotation/" + as[j], a); }
      num(e + "extrinsics/translation/" + xs[j], r); num(e + "extrinsics/rotation/" + as[j], a);
    }
    integer(n + "idx", id);
    for (int j = 0; j < 6; ++j) num(n + "e" + std::to_string(j + 1), (j + 1) * (noise ? 0.01 : 1e-12));
    integer(e + "idx", id); integer(e + "intrinsics/timeDelay", 0);
    flag(e + "intrinsics/timeDelayActive", i < others && active == 1); flag(e + "extrinsics/translation/active", i < others && active != 2); flag(e + "extrinsics/rotation/active", i < others);
  }
  num(p + "T", T); num(p + "dt", dt); num(p + "trajectory/A", 15); num(p + "trajectory/f", 0.05); word(p + "trajectory/type", type);
  for (int j = 0; j < 3; ++j) { num(p + "trajectory/w_T_v_0/" + as[j], 0.25 * j); num(p + "trajectory/w_T_v_0/" + xs[j], 5 - j); }
  num(p + "trajectory/splines/transSplineLambda", 0.5); num(p + "trajectory/splines/rotSplineLambda", 0.25); integer(p + "trajectory/splines/splineKnotsPerSecond", 1000); integer(p + "trajectory/splines/transSplineOrder", 4); integer(p + "trajectory/splines/rotSplineOrder", 4);
  integer(k + "referenceSensor", ref); flag(k + "useNoisyData", noisy);
  num(k + "windowDuration", window); flag(k + "verbose", false); integer(k + "delayBound", 0);
  num(k + "splines/transSplineLambda", 0.25); num(k + "splines/rotSplineLambda", 0.5); integer(k + "splines/splineKnotsPerSecond", 5); integer(k + "splines/transSplineOrder", 4); integer(k + "splines/rotSplineOrder", 4);
  integer(k + "estimator/groupId", 1); num(k + "estimator/infoGainDelta", 0.5); flag(k + "estimator/checkValidity", false); flag(k + "estimator/verbose", false);

  Ego::given().clear(); Ego::simulations() = 0;
  Watch<Ego, Ego::TranslationSpline, Ego::RotationSpline> env(c, accept, []() { return Ego::current(); });
  std::vector<double> gains; std::map<size_t, std::vector<Vec> > history; Table curves; bool ended = false; int more = 0; size_t knots = 0;
  Ego::atEnd() = [&](Ego& x) {
    ended = true; gains = x.getInformationGainHistory();
    for (auto& h : x.getDesignVariablesHistory()) history[h.first] = h.second;
    if (x.getTranslationSpline()) knots = x.getTranslationSpline()->control.size();
    for (auto& q : env.kept) curve(curves, q, sm::timing::secToNsec(dt));
    // nothing is left that could be used
    const int before = env.batches;
    try { x.addMeasurements(); } catch (const std::exception&) {}
    more = env.batches - before;
  };
  c.step(); c.check();
  int rc = -1;
  try { rc = run(ego_simulator_main, {"conf"}); }
  catch (const mc::Violation&) { Ego::atEnd() = nullptr; throw; }
  catch (const std::exception& e) {
    Ego::atEnd() = nullptr;
    // a single motion says nothing of where it began
    MC_REQUIRE(ended && knots == 2 && std::string(e.what()).find("no error terms") != std::string::npos, name << ": the program ends with " << e.what());
    c.outcome("refused");
    return;
  }
  Ego::atEnd() = nullptr;
  MC_REQUIRE(rc == 0 && ended && Ego::simulations() == 1, name << ": the program ends with " << rc);

  const SimulationData& d = Ego::data();
  MC_REQUIRE((int)d.motionData.size() == others + 1, name << ": motions of " << d.motionData.size() << " sensors");
  const auto& used = noisy ? d.motionDataNoisy : d.motionData;
  const size_t n = used.at(ref).size();
  std::vector<std::vector<Given> > want(n);
  for (auto& s : used) for (size_t i = 0; i < n; ++i) want[i].push_back({(int)s.first, s.second.at(i).first, Ego::flat(s.second.at(i).second)});
  sameSteps(Ego::given(), want);
  {
    const auto& ts = d.trajectory.translationSpline; const auto& rs = d.trajectory.rotationSpline;
    Table w;
    for (Time x = ts->getMinTime(); x < ts->getMaxTime(); x += sm::timing::secToNsec(dt)) { Vec v(6); v << ts->value(x), angles(sm::kinematics::quat2r(rs->value(x))); w.push_back(row(v)); }
    same("w_T_v.txt", w, 1e-9, {3, 4, 5});
  }
  for (auto* m : {&d.motionData, &d.motionDataNoisy}) for (auto& s : *m) {
    Table w;
    for (auto& x : s.second) { Vec v(7); v << x.second.motion.t(), x.second.motion.q(); w.push_back(row(v)); }
    same((m == &d.motionData ? "motionData_" : "motionDataNoisy_") + std::to_string(s.first) + ".txt", w);
  }
  Table g;
  for (double x : gains) g.push_back({x});
  same("w_T_v_est.txt", curves, 1e-7, {3, 4, 5}); same("infoGainHist.txt", g);
  for (auto& x : history) { Table h; for (auto& v : x.second) h.push_back(row(v)); same("calibHist_" + std::to_string(x.first) + ".txt", h); }
  MC_REQUIRE((int)history.size() == others + 1, name << ": histories of " << history.size() << " sensors");
  MC_REQUIRE(!more, name << ": the program ends without using what is measured last");
  MC_REQUIRE((int)gains.size() == env.batches, name << ": " << gains.size() << " gains for " << env.batches << " batches");
  c.outcome(std::to_string(steps) + "/" + std::to_string(env.batches) + "/" + std::to_string(env.kept.size()) + "/" + std::to_string(curves.size()));
}
mc::Register r1("D02", "egomotion", runs, "the program on every combination of kinds of trajectory, time steps, durations, window lengths, sensors, sets of estimated variables, noise made and used, and batches kept or rejected, of a lattice", 16, 4);

void usage(mc::Chooser& c) {
  const int n = c.choose(4);
  Watch<Ego, Ego::TranslationSpline, Ego::RotationSpline> env(c, true, []() { return Ego::current(); });
  Ego::given().clear(); Ego::simulations() = 0;
  sm::BoostPropertyTree::files().clear();
  c.step(); c.check();
  if (n == 1) {
    bool threw = false;
    try { run(ego_simulator_main, {"nowhere"}); } catch (const mc::Violation&) { throw; } catch (const std::exception&) { threw = true; }
    MC_REQUIRE(threw, "no complaint about a configuration that is not there");
  } else {
    MC_REQUIRE(run(ego_simulator_main, std::vector<std::string>(n, "conf")) != 0, "no complaint about " << n << " arguments");
  }
  MC_REQUIRE(Ego::simulations() == 0 && Ego::given().empty(), "something is simulated without a configuration");
  c.outcome(std::to_string(n));
}
mc::Register r2("D02", "egomotion-usage", usage, "the program without, with too many, and with wrong arguments", 1, 1);
}  // namespace
MC_MAIN
