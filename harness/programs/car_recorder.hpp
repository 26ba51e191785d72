// The calibrator of the car, which notes what it is given and how it ends.
#ifndef VERIF_CAR_RECORDER_HPP
#define VERIF_CAR_RECORDER_HPP
#include <functional>
#include <string>
#include <vector>
#include <Eigen/Core>
#include <sm/PropertyTree.hpp>
#include <aslam/calibration/car/algo/CarCalibrator.h>
#include <aslam/calibration/car/algo/splinesToFile.h>
#include <aslam/calibration/car/data/DMIMeasurement.h>
#include <aslam/calibration/car/data/PoseMeasurement.h>
#include <aslam/calibration/car/data/SteeringMeasurement.h>
#include <aslam/calibration/car/data/VelocitiesMeasurement.h>
#include <aslam/calibration/car/data/WheelSpeedsMeasurement.h>

namespace recorder {
struct Given { int sensor; sm::timing::NsecTime t; Eigen::Vector3d a, b; Eigen::Matrix3d sa, sb; };
class Car : public aslam::calibration::CarCalibrator {
 public:
  typedef aslam::calibration::CarCalibrator Base;
  explicit Car(const sm::PropertyTree& t) : Base(t) { current() = this; }
  Car(const Car&) = delete;
  ~Car() { if (atEnd()) atEnd()(*this); current() = nullptr; }
  static Car*& current() { static Car* c = nullptr; return c; }
  static std::vector<Given>& given() { static std::vector<Given> g; return g; }
  static std::vector<std::string>& asked() { static std::vector<std::string> g; return g; }
  static std::function<void(Car&)>& atEnd() { static std::function<void(Car&)> f; return f; }
  typedef sm::timing::NsecTime T;
  void addPoseMeasurement(const aslam::calibration::PoseMeasurement& p, T t) { note(0, t, p.m_r_mr, p.m_R_r, p.sigma2_m_r_mr, p.sigma2_m_R_r); Base::addPoseMeasurement(p, t); }
  void addVelocitiesMeasurement(const aslam::calibration::VelocitiesMeasurement& p, T t) { note(1, t, p.r_v_mr, p.r_om_mr, p.sigma2_r_v_mr, p.sigma2_r_om_mr); Base::addVelocitiesMeasurement(p, t); }
  void addDMIMeasurement(const aslam::calibration::DMIMeasurement& p, T t) { note(2, t, p.wheelSpeed, 0); Base::addDMIMeasurement(p, t); }
  void addFrontWheelsMeasurement(const aslam::calibration::WheelSpeedsMeasurement& p, T t) { note(3, t, p.left, p.right); Base::addFrontWheelsMeasurement(p, t); }
  void addRearWheelsMeasurement(const aslam::calibration::WheelSpeedsMeasurement& p, T t) { note(4, t, p.left, p.right); Base::addRearWheelsMeasurement(p, t); }
  void addSteeringMeasurement(const aslam::calibration::SteeringMeasurement& p, T t) { note(5, t, p.value, 0); Base::addSteeringMeasurement(p, t); }
  void addMeasurements() { asked().push_back("process"); Base::addMeasurements(); }
  void predict() { asked().push_back("predict"); Base::predict(); }
 private:
  void note(int s, T t, double l, double r) { note(s, t, Eigen::Vector3d(l, r, 0), Eigen::Vector3d::Zero(), Eigen::Matrix3d::Zero(), Eigen::Matrix3d::Zero()); }
  void note(int s, T t, const Eigen::Vector3d& a, const Eigen::Vector3d& b, const Eigen::Matrix3d& sa, const Eigen::Matrix3d& sb) { given().push_back({s, t, a, b, sa, sb}); }
};
}  // namespace recorder
namespace aslam { namespace calibration { typedef recorder::Car VerifCarCalibrator; } }
#endif
