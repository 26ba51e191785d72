// The calibrator and the validator of a camera, which note what they are given and how they end.
#ifndef VERIF_CAMERA_RECORDER_HPP
#define VERIF_CAMERA_RECORDER_HPP
#include <functional>
#include <fstream>
#include <vector>
#include <boost/filesystem.hpp>
#include <Eigen/Core>
#include <sm/BoostPropertyTree.hpp>
#include <verif_camera.hpp>
#include <aslam/calibration/camera/CameraCalibrator.h>
#include <aslam/calibration/camera/CameraValidator.h>

namespace recorder {
struct Given { const verif::Scene* scene; sm::timing::NsecTime t; bool found; size_t kept; };
template <class Base> struct Notes : Base {
  template <class... A> explicit Notes(const A&... a) : Base(a...) { current() = this; }
  ~Notes() { if (atEnd()) atEnd()(*this); current() = nullptr; }
  static Notes*& current() { static Notes* c = nullptr; return c; }
  static std::vector<Given>& given() { static std::vector<Given> g; return g; }
  static std::vector<Given>& started() { static std::vector<Given> g; return g; }
  static int& processed() { static int n = 0; return n; }
  static std::function<void(Notes&)>& atEnd() { static std::function<void(Notes&)> f; return f; }
  bool addImage(const cv::Mat& m, sm::timing::NsecTime t) { const bool f = Base::addImage(m, t); given().push_back({m.scene.get(), t, f, 0}); return f; }
};
struct Camera : Notes<aslam::calibration::CameraCalibrator> {
  explicit Camera(const sm::PropertyTree& t) : Notes(t) {}
  bool initGeometry(const cv::Mat& m) { const bool f = CameraCalibrator::initGeometry(m); started().push_back({m.scene.get(), 0, f, 0}); return f; }
  void processBatch() { ++processed(); CameraCalibrator::processBatch(); }
};
struct Validator : Notes<aslam::calibration::CameraValidator> {
  Validator(const sm::PropertyTree& i, const sm::PropertyTree& t) : Notes(i, t) {}
};
}  // namespace recorder
namespace aslam { namespace calibration { typedef recorder::Camera VerifCameraCalibrator; typedef recorder::Validator VerifCameraValidator; } }
#endif
