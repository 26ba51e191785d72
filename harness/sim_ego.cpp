// W01: the simulator of the egomotion example, against its motion model.
#include <cmath>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include <mc.hpp>
#include <sm/PropertyTree.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <aslam/calibration/egomotion/data/MotionMeasurement.h>
#include <aslam/calibration/egomotion/simulation/SimulationData.h>
#include <aslam/calibration/egomotion/simulation/SimulationParams.h>
#include <aslam/calibration/egomotion/simulation/simulationEngine.h>
#include <sim_common.hpp>
#include <shipped.hpp>

using namespace aslam::calibration;

namespace {

void simulations(mc::Chooser& c) {
  const bool th = mc::config().thorough();
  const char* types[] = {"straight", "sine", "random", "combined"};
  const std::string type = types[c.choose(4)];
  const double dt = c.pick(std::vector<double>{0.1, 0.25, 1});
  const double T = dt * c.pick(th ? std::vector<double>{1.5, 3.5, 7.5, 9.4, 30.5} : std::vector<double>{1.5, 7.5, 12.5});
  const double A = c.pick(std::vector<double>{0, 15, -3}), f = c.pick(std::vector<double>{0.01, 0.3});
  struct S { int idx, delay; Eigen::Vector3d ypr, t; };
  const S sensors[] = {{7, 20000000, {0.3, -0.2, 0.1}, {1, -2, 0.5}}, {0, -5000000, {-2.5, 0.4, 3}, {0, 0.25, 0}}};
  const int others = c.choose(3), ref = c.flip() ? 3 : 12;
  const int start = c.choose(2), knots = c.flip() ? 5 : 1000;
  const int orders = c.choose(2), noise = c.choose(3 + 2 * others) - 1;
  const int noisy = noise < 0 ? -1 : noise / 2; const bool turned = noise % 2;   // which sensor has real noise, on its position or its orientation
  const double tiny = 1e-18, big = 1e-2;
  std::ostringstream nm;
  nm << type << ", dt " << dt << ", T " << T << ", A " << A << ", f " << f << ", " << others << " other sensors, reference " << ref << ", start " << start << ", knots " << knots << ", noisy " << noisy << (turned ? " (turned)" : "");
  const std::string name = nm.str();
  c.trace([&](std::ostream& os) { os << name; });
  c.note(name);
  const Eigen::Vector3d ypr0 = start ? Eigen::Vector3d(1, 0.3, -0.4) : Eigen::Vector3d(0, 0, 0), t0 = start ? Eigen::Vector3d(5, -6, 7) : Eigen::Vector3d(0, 0, 0);
  sm::PropertyTree cfg;
  cfg.setInt("egomotion/calibrator/referenceSensor", ref);
  cfg.setInt("s/calibration/num", others);
  std::map<int, Eigen::Matrix<double, 6, 1> > var;
  for (int i = 0; i <= others; ++i) {
    const std::string s = "s/calibration/sensor_" + std::to_string(i) + "/", n = "s/noise/sensor_" + std::to_string(i) + "/";
    const int idx = i < others ? sensors[i].idx : ref;
    if (i < others) {
      const S& q = sensors[i];
      cfg.setInt(s + "idx", q.idx); cfg.setInt(s + "intrinsics/timeDelay", q.delay);
      cfg.setDouble(s + "extrinsics/rotation/yaw", q.ypr(0)); cfg.setDouble(s + "extrinsics/rotation/pitch", q.ypr(1)); cfg.setDouble(s + "extrinsics/rotation/roll", q.ypr(2));
      cfg.setDouble(s + "extrinsics/translation/x", q.t(0)); cfg.setDouble(s + "extrinsics/translation/y", q.t(1)); cfg.setDouble(s + "extrinsics/translation/z", q.t(2));
    }
    cfg.setInt(n + "idx", idx);
    for (int j = 0; j < 6; ++j) { var[idx](j) = (j + 1) * (noisy == i && (j >= 3) == turned ? big : tiny); cfg.setDouble(n + "e" + std::to_string(j + 1), var[idx](j)); }
  }
  cfg.setDouble("s/dt", dt); cfg.setDouble("s/T", T);
  cfg.setDouble("s/trajectory/A", A); cfg.setDouble("s/trajectory/f", f); cfg.setString("s/trajectory/type", type);
  const char* a3[] = {"yaw", "pitch", "roll"}; const char* p3[] = {"x", "y", "z"};
  for (int j = 0; j < 3; ++j) { cfg.setDouble(std::string("s/trajectory/w_T_v_0/") + a3[j], ypr0(j)); cfg.setDouble(std::string("s/trajectory/w_T_v_0/") + p3[j], t0(j)); }
  cfg.setDouble("s/trajectory/splines/transSplineLambda", 0.5); cfg.setDouble("s/trajectory/splines/rotSplineLambda", 0.25);
  cfg.setInt("s/trajectory/splines/splineKnotsPerSecond", knots);
  // the order of the positions' curve may be left out
  if (orders) cfg.setInt("s/trajectory/splines/transSplineOrder", 6);
  cfg.setInt("s/trajectory/splines/rotSplineOrder", 5);
  const SimulationParams p(sm::PropertyTree(cfg, "s"), cfg);
  SimulationData d;
  c.step(); c.check();
  simulate(p, d);

  const auto& ts = *d.trajectory.translationSpline; const auto& rs = *d.trajectory.rotationSpline;
  const size_t n = ts.times.size();
  MC_REQUIRE(ts.order == (orders ? 6 : 4) && rs.order == 5 && ts.lambda == 0.5 && rs.lambda == 0.25, name << ": curves of order " << ts.order << " and " << rs.order << ", stiffness " << ts.lambda << " and " << rs.lambda);
  const double length = (ts.times.back() - ts.times.front()) / 1e9;
  const int seg = (int)(std::lround(n / length) > knots ? std::ceil(knots * length) : n);
  MC_REQUIRE(ts.segments == seg && rs.segments == seg, name << ": curves of " << ts.segments << " and " << rs.segments << " segments instead of " << seg);
  MC_REQUIRE(rs.times == ts.times && ts.control.size() == n && rs.control.size() == n, name << ": the curves differ in their times");
  MC_REQUIRE(n == (size_t)std::floor(T / dt) + 1 || type == "combined", name << ": " << n << " poses instead of " << std::floor(T / dt) + 1);
  MC_REQUIRE(std::llabs((long long)n - (long long)std::floor(T / dt) - 1) <= 1, name << ": " << n << " poses instead of about " << std::floor(T / dt) + 1);
  for (size_t i = 0; i < n; ++i) MC_REQUIRE(ts.times[i] == (long)i * sm::timing::secToNsec(dt), name << ": pose " << i << " at " << ts.times[i]);
  Pose at{euler(ypr0), t0};
  Eigen::Vector4d lastQ(0, 0, 0, 0);
  int part = 0;
  Sine s(type == "straight" || type == "combined" ? 0 : A, f);
  if (type == "straight" || type == "combined") s.first = false;   // starts with heading 0
  for (size_t i = 0; i < n; ++i) {
    const std::string st = name + ": pose " + std::to_string(i);
    if (i) {
      const double t = i * dt;
      bool enter = false;
      if (type == "combined") {
        // a new wave begins with each part, but the clock goes on; nothing is said of the step in between
        const int now = t < T / 3 - 1e-9 ? 0 : t < 2.0 / 3 * T - 1e-9 ? 1 : 2;
        if (now != part) {
          part = now; s = Sine(A, f); s.first = false; enter = true;
        }
      }
      double v, om;
      s.step(t, dt, v, om);
      if (type == "random" || part == 2 || enter) { at.C = sm::kinematics::quat2r(rs.control[i]->v); at.t = ts.control[i]->v; }   // anywhere
      else { at.t += dt * at.C * Eigen::Vector3d(v, 0, 0); at.C = at.C * turn(Eigen::Vector3d(0, 0, om * dt)); }
    }
    const Eigen::Vector4d q = rs.control[i]->v;
    MC_REQUIRE(near(Eigen::Vector3d(ts.control[i]->v), at.t), st << " at " << ts.control[i]->v.transpose() << " instead of " << at.t.transpose());
    MC_REQUIRE(near(sm::kinematics::quat2r(q), at.C) && std::fabs(q.norm() - 1) < 1e-9, st << " wrongly turned");
    if (i) MC_REQUIRE(q.dot(lastQ) > -1e-9, st << ": orientation jumps to the other quaternion");
    lastQ = q;
  }
  // the measurements, from the curves
  MC_REQUIRE(d.motionData.size() == size_t(n > 1 ? others + 1 : 0) && d.motionDataNoisy.size() == d.motionData.size(), name << ": measurements of " << d.motionData.size() << " sensors");
  const long h = sm::timing::secToNsec(dt);
  for (int i = 0; i <= others && n > 1; ++i) {
    const int idx = i < others ? sensors[i].idx : ref;
    const long delay = i < others ? sensors[i].delay : 0;
    Pose m{Eigen::Matrix3d::Identity(), Eigen::Vector3d::Zero()};
    if (i < others) { m.C = euler(sensors[i].ypr); m.t = sensors[i].t; }
    MC_REQUIRE(d.motionData.count(idx) && d.motionDataNoisy.count(idx), name << ": no measurement of sensor " << idx);
    const auto& z = d.motionData.at(idx); const auto& zn = d.motionDataNoisy.at(idx);
    MC_REQUIRE(z.size() == n - 1 && zn.size() == n - 1, name << ": " << z.size() << " and " << zn.size() << " measurements of sensor " << idx << " instead of " << n - 1);
    double spread = 0;
    for (size_t j = 1; j < n; ++j) {
      std::ostringstream st; st << name << ": measurement " << j << " of sensor " << idx;
      const auto& q = z[j - 1]; const auto& qn = zn[j - 1];
      MC_REQUIRE(q.first == (long)j * h + delay && qn.first == q.first, st.str() << " at " << q.first << " instead of " << (long)j * h + delay);
      MC_REQUIRE(q.second.duration == h && qn.second.duration == h, st.str() << " lasts " << q.second.duration);
      MC_REQUIRE(near(q.second.sigma2.diagonal(), var[idx], 0) && q.second.sigma2 == qn.second.sigma2 && (q.second.sigma2 - Eigen::Matrix<double, 6, 6>(var[idx].asDiagonal())).isZero(0), st.str() << " has the wrong covariance");
      const Eigen::Matrix3d Ca = sm::kinematics::quat2r(rs.control[j - 1]->v), Cb = sm::kinematics::quat2r(rs.control[j]->v);
      const Eigen::Vector3d ta = ts.control[j - 1]->v, tb = ts.control[j]->v;
      // poses of the sensor in the world
      const Eigen::Matrix3d Sa = Ca * m.C, Sb = Cb * m.C;
      const Eigen::Vector3d pa = ta + Ca * m.t, pb = tb + Cb * m.t;
      const Eigen::Matrix3d C = Sa.transpose() * Sb;
      const Eigen::Vector3d t = Sa.transpose() * (pb - pa);
      MC_REQUIRE(near(q.second.motion.C(), C) && near(q.second.motion.t(), t), st.str() << " moves by " << q.second.motion.t().transpose() << " instead of " << t.transpose() << " or is wrongly turned");
      const double er = (qn.second.motion.C() - C).norm(), et = (qn.second.motion.t() - t).norm(), e = noisy != i ? std::max(er, et) : turned ? er : et;
      MC_REQUIRE(noisy != i || (turned ? et : er) < 1e-6, st.str() << ": noise of " << (turned ? et : er) << (turned ? " on its position" : " on its orientation"));
      spread = std::max(spread, e);
      MC_REQUIRE(noisy == i || e < 1e-6, st.str() << ": noise of " << e);
      MC_REQUIRE(noisy != i || (qn.second.motion.t() - t).norm() < 100 * std::sqrt(6 * big), st.str() << ": noise of " << (qn.second.motion.t() - t).norm());
    }
    if (noisy == i) MC_REQUIRE(spread > 1e-6, name << ": no noise on sensor " << idx);
  }
  c.outcome(name);
}
mc::Register w1("W01", "egomotion", simulations, "every combination of kinds of trajectory, time steps, durations, amplitudes, frequencies, sensor sets, starts, curve settings and noise levels of a lattice; every pose and measurement of each", 8, 4);


void shippedSimulation(mc::Chooser& c) {
  sm::BoostPropertyTree t;
  shipped("incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/conf/simulation.xml", t);
  c.check(); c.step();
  SimulationParams p(sm::PropertyTree(t, "egomotion/simulation/params"), t);
  MC_REQUIRE(p.T > 0 && p.dt > 0, "the simulation is not as shipped");
  c.outcome("params");
}
mc::Register w3("W01", "egomotion-shipped", shippedSimulation, "the simulation from the configuration that is shipped", 1, 1);
}  // namespace
MC_MAIN
