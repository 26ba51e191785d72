// The simulation and the calibrator of the time-delay example, which note what they make and are given.
#ifndef VERIF_DELAY_RECORDER_HPP
#define VERIF_DELAY_RECORDER_HPP
#include <functional>
#include <vector>
#include <Eigen/Core>
#include <sm/PropertyTree.hpp>
#include <sm/BoostPropertyTree.hpp>
#include <aslam/calibration/time-delay/algo/Calibrator.h>
#include <aslam/calibration/time-delay/algo/splinesToFile.h>
#include <aslam/calibration/time-delay/data/PoseMeasurement.h>
#include <aslam/calibration/time-delay/data/WheelSpeedMeasurement.h>
#include <aslam/calibration/time-delay/simulation/SimulationData.h>
#include <aslam/calibration/time-delay/simulation/SimulationParams.h>
#include <aslam/calibration/time-delay/simulation/simulationEngine.h>

namespace recorder {
struct Given { int sensor; sm::timing::NsecTime t; Eigen::VectorXd what; };
class Delay : public aslam::calibration::Calibrator {
 public:
  typedef aslam::calibration::Calibrator Base;
  explicit Delay(const sm::PropertyTree& t) : Base(t) { current() = this; }
  ~Delay() { if (atEnd()) atEnd()(*this); current() = nullptr; }
  static Delay*& current() { static Delay* c = nullptr; return c; }
  static std::vector<Given>& given() { static std::vector<Given> g; return g; }
  static std::function<void(Delay&)>& atEnd() { static std::function<void(Delay&)> f; return f; }
  static aslam::calibration::SimulationData& data() { static aslam::calibration::SimulationData d; return d; }
  static int& simulations() { static int n = 0; return n; }
  typedef sm::timing::NsecTime T;
  static Eigen::VectorXd pose(const aslam::calibration::PoseMeasurement& p) {
    Eigen::VectorXd v(12); v << p.w_r_wp, p.w_R_p, p.sigma2_w_r_wp.diagonal(), p.sigma2_w_R_p.diagonal(); return v;
  }
  void addPoseMeasurement(const aslam::calibration::PoseMeasurement& p, T t) { given().push_back({0, t, pose(p)}); Base::addPoseMeasurement(p, t); }
  void addLeftWheelMeasurement(const aslam::calibration::WheelSpeedMeasurement& p, T t) { given().push_back({1, t, Eigen::VectorXd::Constant(1, p.value)}); Base::addLeftWheelMeasurement(p, t); }
  void addRightWheelMeasurement(const aslam::calibration::WheelSpeedMeasurement& p, T t) { given().push_back({2, t, Eigen::VectorXd::Constant(1, p.value)}); Base::addRightWheelMeasurement(p, t); }
};
}  // namespace recorder
namespace aslam { namespace calibration {
typedef recorder::Delay VerifDelayCalibrator;
inline void verifSimulate(const SimulationParams& p, SimulationData& d) { simulate(p, d); recorder::Delay::data() = d; ++recorder::Delay::simulations(); }
} }
#endif
