// The simulation and the calibrator of the egomotion example, which note what they make and are given.
#ifndef VERIF_EGO_RECORDER_HPP
#define VERIF_EGO_RECORDER_HPP
#include <functional>
#include <vector>
#include <Eigen/Core>
#include <sm/PropertyTree.hpp>
#include <sm/BoostPropertyTree.hpp>
#include <aslam/calibration/egomotion/algo/Calibrator.h>
#include <aslam/calibration/egomotion/algo/splinesToFile.h>
#include <aslam/calibration/egomotion/data/MotionMeasurement.h>
#include <aslam/calibration/egomotion/simulation/SimulationData.h>
#include <aslam/calibration/egomotion/simulation/SimulationParams.h>
#include <aslam/calibration/egomotion/simulation/simulationEngine.h>

namespace recorder {
struct Given { int sensor; sm::timing::NsecTime t; Eigen::VectorXd what; };
class Ego : public aslam::calibration::Calibrator {
 public:
  typedef aslam::calibration::Calibrator Base;
  explicit Ego(const sm::PropertyTree& t) : Base(t) { current() = this; }
  ~Ego() { if (atEnd()) atEnd()(*this); current() = nullptr; }
  static Ego*& current() { static Ego* c = nullptr; return c; }
  static std::vector<Given>& given() { static std::vector<Given> g; return g; }
  static std::function<void(Ego&)>& atEnd() { static std::function<void(Ego&)> f; return f; }
  static aslam::calibration::SimulationData& data() { static aslam::calibration::SimulationData d; return d; }
  static int& simulations() { static int n = 0; return n; }
  typedef sm::timing::NsecTime T;
  static Eigen::VectorXd flat(const aslam::calibration::MotionMeasurement& m) {
    Eigen::VectorXd v(14); v << m.motion.t(), m.motion.q(), (double)m.duration, m.sigma2.diagonal(); return v;
  }
  void addMotionMeasurement(const aslam::calibration::MotionMeasurement& m, T t, size_t idx = 0) { given().push_back({(int)idx, t, flat(m)}); Base::addMotionMeasurement(m, t, idx); }
};
}  // namespace recorder
namespace aslam { namespace calibration {
typedef recorder::Ego VerifEgoCalibrator;
inline void verifSimulate(const SimulationParams& p, SimulationData& d) { simulate(p, d); recorder::Ego::data() = d; ++recorder::Ego::simulations(); }
} }
#endif
