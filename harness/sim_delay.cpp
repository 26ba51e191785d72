// W01: the simulator of the time-delay example, against its motion model.
#include <cmath>
#include <sstream>
#include <string>
#include <vector>

#include <mc.hpp>
#include <sm/PropertyTree.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <aslam/calibration/time-delay/data/PoseMeasurement.h>
#include <aslam/calibration/time-delay/data/WheelSpeedMeasurement.h>
#include <aslam/calibration/time-delay/simulation/SimulationData.h>
#include <aslam/calibration/time-delay/simulation/SimulationParams.h>
#include <aslam/calibration/time-delay/simulation/simulationEngine.h>
#include <sim_common.hpp>
#include <shipped.hpp>

using namespace aslam::calibration;

namespace {

void simulations(mc::Chooser& c) {
  const bool th = mc::config().thorough();
  const bool fromConfig = c.flip();
  const double dt = c.pick(std::vector<double>{0.1, 0.25, 1.0 / 3, 1});
  const double T = dt * c.pick(th ? std::vector<double>{0.5, 1.5, 2.5, 3.5, 7.5, 30.5} : std::vector<double>{0.5, 1.5, 3.5, 12.5});
  const double A = c.pick(std::vector<double>{0, 1, 15, -3}), f = c.pick(std::vector<double>{0.01, 0.3, 0.05});
  struct Calib { double b, kl, kr, tl, tr; Eigen::Vector3d ypr, t; };
  const std::vector<Calib> calibs = {{0.8, 360, 360, 0.1, 0.2, {0, 0, 0}, {0, 0, 0}}, {0.4, 100, -2, 0, -0.05, {0.3, -0.2, 0.1}, {1, -2, 0.5}}, {1.5, 1, 3, 0.123456789, 0, {-2.5, 0.4, 3}, {0, 0.25, 0}}};
  const int ci = c.choose((int)calibs.size());
  const Calib& k = calibs[ci];
  const int start = fromConfig ? 0 : c.choose(2);
  // negligible noise everywhere but, maybe, on one sensor
  const int noisy = c.choose(5);
  const double tiny = 1e-18, big = 4;
  const Eigen::Vector3d sr = noisy == 3 ? Eigen::Vector3d(big, 2 * big, 3 * big) : Eigen::Vector3d(tiny, 2 * tiny, 3 * tiny), sR = noisy == 4 ? Eigen::Vector3d(big, 2 * big, 3 * big) : Eigen::Vector3d(tiny, 2 * tiny, 3 * tiny);
  std::ostringstream nm;
  nm << "dt " << dt << ", T " << T << ", A " << A << ", f " << f << ", calibration " << ci << ", start " << start << ", noisy " << noisy << (fromConfig ? ", configured" : "");
  c.trace([&](std::ostream& os) { os << nm.str(); });
  c.note(nm.str());
  const sm::kinematics::EulerAnglesYawPitchRoll ypr;
  SimulationParams p;
  if (fromConfig) {
    sm::PropertyTree cfg;
    const std::string w = "s/calibration/odometry/wss/";
    cfg.setDouble(w + "b", k.b); cfg.setDouble(w + "k_l", k.kl); cfg.setDouble(w + "k_r", k.kr); cfg.setDouble(w + "t_l", k.tl); cfg.setDouble(w + "t_r", k.tr);
    for (int i = 0; i < 3; ++i) {
      const std::string e = "/e" + std::to_string(i + 1);
      cfg.setDouble("s/calibration/v_T_p/v_R_p" + e, k.ypr(i)); cfg.setDouble("s/calibration/v_T_p/v_r_vp" + e, k.t(i));
      cfg.setDouble("s/noise/pose/sigma2_w_r_wp" + e, sr(i)); cfg.setDouble("s/noise/pose/sigma2_w_R_p" + e, sR(i));
    }
    cfg.setDouble("s/dt", dt); cfg.setDouble("s/T", T); cfg.setDouble("s/noise/odometry/wss/sigma2_l", noisy == 1 ? big : tiny); cfg.setDouble("s/noise/odometry/wss/sigma2_r", noisy == 2 ? big : tiny);
    cfg.setDouble("s/trajectory/A", A); cfg.setDouble("s/trajectory/f", f);
    p = SimulationParams(sm::PropertyTree(cfg, "s"));
  } else {
    p.b = k.b; p.k_l = k.kl; p.k_r = k.kr; p.t_l = k.tl; p.t_r = k.tr; p.dt = dt; p.T = T;
    p.v_T_p = sm::kinematics::Transformation(sm::kinematics::rt2Transform(ypr.parametersToRotationMatrix(k.ypr), k.t));
    p.sigma2_l = noisy == 1 ? big : tiny; p.sigma2_r = noisy == 2 ? big : tiny;
    p.sigma2_w_r_wp = sr.asDiagonal(); p.sigma2_w_R_p = sR.asDiagonal();
    p.trajectoryParams.A = A; p.trajectoryParams.f = f;
    if (start) p.trajectoryParams.w_T_v_0 = sm::kinematics::Transformation(sm::kinematics::rt2Transform(ypr.parametersToRotationMatrix(Eigen::Vector3d(1, 0.3, -0.4)), Eigen::Vector3d(5, -6, 7)));
  }
  SimulationData d;
  c.step(); c.check();
  simulate(p, d);

  const size_t n = (size_t)std::floor(T / dt);
  const std::string name = nm.str();
  const Trajectory& tr = d.trajectory;
  MC_REQUIRE(tr.w_T_v.size() == n + 1 && tr.v_v_wv.size() == n + 1 && tr.v_om_wv.size() == n + 1, name << ": a trajectory of " << tr.w_T_v.size() << " poses instead of " << n + 1);
  MC_REQUIRE(d.w_v_wwl.size() == n && d.w_v_wwr.size() == n && d.lwData.size() == n && d.rwData.size() == n && d.lwData_n.size() == n && d.rwData_n.size() == n && d.poseData.size() == n && d.poseData_n.size() == n, name << ": not one measurement of every sensor per step");
  Pose at{p.trajectoryParams.w_T_v_0.C(), p.trajectoryParams.w_T_v_0.t()};
  if (start == 0) MC_REQUIRE(near(at.C, Eigen::Matrix3d::Identity()) && near(at.t, Eigen::Vector3d::Zero()), name << ": the trajectory does not start at the origin");
  MC_REQUIRE(near(tr.w_T_v[0].C(), at.C) && near(tr.w_T_v[0].t(), at.t) && tr.v_v_wv[0].isZero(0) && tr.v_om_wv[0].isZero(0), name << ": wrong start");
  Sine s(A, f);
  const Eigen::Matrix3d Rvp = euler(k.ypr);
  double spread[4] = {0, 0, 0, 0};
  for (size_t i = 0; i < n; ++i) {
    const std::string st = name + ": step " + std::to_string(i + 1);
    double v, om;
    s.step((i + 1) * dt, dt, v, om);
    MC_REQUIRE(near(tr.v_v_wv[i + 1], Eigen::Vector3d(v, 0, 0)), st << ": velocity " << tr.v_v_wv[i + 1].transpose() << " instead of " << v);
    MC_REQUIRE(near(tr.v_om_wv[i + 1], Eigen::Vector3d(0, 0, om)), st << ": turn rate " << tr.v_om_wv[i + 1].transpose() << " instead of " << om);
    at.t += dt * at.C * Eigen::Vector3d(v, 0, 0);
    at.C = at.C * turn(Eigen::Vector3d(0, 0, om * dt));
    MC_REQUIRE(near(tr.w_T_v[i + 1].C(), at.C) && near(tr.w_T_v[i + 1].t(), at.t), st << ": vehicle at " << tr.w_T_v[i + 1].t().transpose() << " instead of " << at.t.transpose() << " or wrongly turned");
    const double vl = v - om * k.b, vr = v + om * k.b;
    MC_REQUIRE(near(d.w_v_wwl[i], Eigen::Vector3d(vl, 0, 0)) && near(d.w_v_wwr[i], Eigen::Vector3d(vr, 0, 0)), st << ": wheels at " << d.w_v_wwl[i].transpose() << " and " << d.w_v_wwr[i].transpose() << " instead of " << vl << " and " << vr);
    MC_REQUIRE(near(d.lwData[i].second.value, k.kl * vl) && near(d.rwData[i].second.value, k.kr * vr), st << ": wheels measure " << d.lwData[i].second.value << " and " << d.rwData[i].second.value << " instead of " << k.kl * vl << " and " << k.kr * vr);
    const long long t0 = (long long)i * sm::timing::secToNsec(dt);
    auto when = [&](long long got, double offset, const char* what) { MC_REQUIRE(std::llabs(got - (t0 + std::llround(offset * 1e9))) <= 1, st << ": " << what << " measured at " << got << " instead of " << t0 << " and " << offset << " s"); };
    when(d.lwData[i].first, k.tl, "left wheel"); when(d.lwData_n[i].first, k.tl, "left wheel with noise");
    when(d.rwData[i].first, k.tr, "right wheel"); when(d.rwData_n[i].first, k.tr, "right wheel with noise");
    when(d.poseData[i].first, dt / 2, "pose"); when(d.poseData_n[i].first, dt / 2, "pose with noise");
    const auto& q = d.poseData[i].second; const auto& qn = d.poseData_n[i].second;
    MC_REQUIRE(near(q.w_r_wp, Eigen::Vector3d(at.t + at.C * k.t)), st << ": pose sensor at " << q.w_r_wp.transpose());
    MC_REQUIRE(near(euler(q.w_R_p), Eigen::Matrix3d(at.C * Rvp)), st << ": pose sensor turned by " << q.w_R_p.transpose());
    MC_REQUIRE(near(q.sigma2_w_r_wp, Eigen::Matrix3d(sr.asDiagonal()), 0) && near(q.sigma2_w_R_p, Eigen::Matrix3d(sR.asDiagonal()), 0) && near(qn.sigma2_w_r_wp, Eigen::Matrix3d(sr.asDiagonal()), 0) && near(qn.sigma2_w_R_p, Eigen::Matrix3d(sR.asDiagonal()), 0), st << ": wrong covariances of the pose");
    const double e[4] = {std::fabs((d.lwData_n[i].second.value - d.lwData[i].second.value) / k.kl), std::fabs((d.rwData_n[i].second.value - d.rwData[i].second.value) / k.kr), (qn.w_r_wp - q.w_r_wp).norm(), (qn.w_R_p - q.w_R_p).norm()};
    for (int j = 0; j < 4; ++j) {
      spread[j] = std::max(spread[j], e[j]);
      // a hundred standard deviations
      MC_REQUIRE(e[j] < 100 * (noisy == j + 1 ? 4 : 2e-9) + 1e-10 * (1 + std::fabs(d.lwData[i].second.value)), st << ": noise of " << e[j] << " on sensor " << j);
    }
  }
  for (int j = 0; j < 4; ++j) if (n && noisy == j + 1) MC_REQUIRE(spread[j] > 1e-6, name << ": no noise on sensor " << j);
  c.outcome(name);
}
mc::Register w1("W01", "time-delay", simulations, "every combination of time steps, durations, amplitudes, frequencies, calibrations, starts and noise levels of a lattice; every step of each", 8, 3);

void models(mc::Chooser& c) {
  const std::vector<Eigen::Vector3d> vs = {{0, 0, 0}, {1, 0, 0}, {-2, 0.5, 3}}, oms = {{0, 0, 0}, {0, 0, 0.7}, {0.3, -0.4, 1.2}, {0, -6, 0}, {1e-15, 0, 0}, {1e-20, 0, 1e-20}};
  const Eigen::Vector3d v = vs[c.choose(3)], om = oms[c.choose(6)], ang = c.flip() ? Eigen::Vector3d(0.5, -0.3, 2) : Eigen::Vector3d(0, 0, 0), arm = vs[c.choose(3)];
  const double dt = c.pick(std::vector<double>{0.1, 1, 0});
  const sm::kinematics::EulerAnglesYawPitchRoll ypr;
  const sm::kinematics::Transformation from(sm::kinematics::rt2Transform(ypr.parametersToRotationMatrix(ang), Eigen::Vector3d(1, 2, 3)));
  c.step(); c.check();
  const auto to = integrateMotionModel(from, v, om, dt);
  std::ostringstream nm; nm << "v " << v.transpose() << ", om " << om.transpose() << ", at " << ang.transpose() << ", dt " << dt;
  MC_REQUIRE(near(to.t(), Eigen::Vector3d(Eigen::Vector3d(1, 2, 3) + dt * euler(ang) * v)) && near(to.C(), Eigen::Matrix3d(euler(ang) * turn(om * dt))), nm.str() << ": moves to " << to.t().transpose());
  const Eigen::Vector3d w = genWheelVelocity(v, om, arm);
  MC_REQUIRE(near(w, Eigen::Vector3d(v(0) + om(1) * arm(2) - om(2) * arm(1), v(1) + om(2) * arm(0) - om(0) * arm(2), v(2) + om(0) * arm(1) - om(1) * arm(0))), nm.str() << ": wheel at " << arm.transpose() << " has velocity " << w.transpose());
  c.trace([&](std::ostream& os) { os << nm.str(); });
  c.outcome(nm.str());
}
mc::Register w2("W01", "models", models, "every combination of a lattice of velocities, turn rates (also zero and below precision), orientations, lever arms and time steps", 1, 1);


void shippedSimulation(mc::Chooser& c) {
  sm::BoostPropertyTree t;
  shipped("incremental_calibration_examples/incremental_calibration_examples_time_delay/conf/simulation.xml", t);
  c.check(); c.step();
  SimulationParams p(sm::PropertyTree(t, "time-delay/simulation/params"));
  MC_REQUIRE(p.T > 0 && p.dt > 0, "the simulation is not as shipped");
  c.outcome("params");
}
mc::Register w3("W01", "time-delay-shipped", shippedSimulation, "the simulation from the configuration that is shipped", 1, 1);
}  // namespace
MC_MAIN
