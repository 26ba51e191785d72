from seed import seed
XX = "incremental_calibration_examples/incremental_calibration_examples_"
CAM = XX + "camera/src/camera/"
C, V = CAM + "CameraCalibrator.cpp", CAM + "CameraValidator.cpp"
CAMERA = """#include <demo_core.hpp>
#include <cmath>
#include <sm/BoostPropertyTree.hpp>
#include <verif_camera.hpp>
#include "%s"
#include "%s"
static bool near(double a, double b, double t = 1e-7) { return std::fabs(a - b) <= t * (1 + std::fabs(b)); }
static boost::shared_ptr<CameraCalibrator> calibrator(int batch) {
  sm::BoostPropertyTree t;
  t.setInt("groupId", 0); t.setDouble("infoGainDelta", -1); t.setBool("checkValidity", false); t.setBool("verbose", false);
  CameraCalibrator::Options o; o.rows = 2; o.cols = 3; o.batchNumImages = batch;
  return boost::make_shared<CameraCalibrator>(boost::make_shared<IncrementalEstimator>(t), o);
}
// n corners at x, y
static cv::Mat image(double x, double y, std::vector<size_t> corners = {0, 1, 2, 3, 4, 5}) {
  cv::Mat m(480, 640, CV_8UC1); m.scene = boost::make_shared<verif::Scene>();
  m.scene->T_t_c = sm::kinematics::Transformation(Eigen::Vector4d(0, 0, 0, 1), Eigen::Vector3d(0, 0, -0.5 - 0.001 * x));
  for (size_t i : corners) m.scene->corners[i] = Eigen::Vector2d(x + i * i, y + 2 * i);
  return m;
}
struct Watch : Script {
  std::vector<aslam::backend::ErrorTerm*> terms;
  virtual void onInitStructure(const std::vector<aslam::backend::DesignVariable*>& d, const std::vector<aslam::backend::ErrorTerm*>& e) { Script::onInitStructure(d, e); terms = e; }
};
""" % (C, V)

seed("k02-late-observation", "K02", [(C, """      // add observation to the batch
      addObservation(*observation);
      _batchObservations.push_back(observation);
      _lastObservation = observation;

      // add batch if needed
      if (_batchNumImages == _options.batchNumImages)
        processBatch();
""", """      // add observation to the batch
      addObservation(*observation);
      _lastObservation = observation;

      // add batch if needed
      if (_batchNumImages == _options.batchNumImages)
        processBatch();
      _batchObservations.push_back(observation);
""")], CAMERA + """
int main() {
  Watch env; verif::Env::current() = &env;
  auto c = calibrator(2);
  c->initGeometry(image(1, 1));
  for (int i = 1; i <= 4; ++i) c->addImage(image(i * 10, i), i * 1000000);
  EXPECT(c->getEstimatorObservations().size() == 4);
  EXPECT(c->getBatchObservations().empty());
  for (int i = 0; i < 4; ++i) { Eigen::Vector2d p; c->getEstimatorObservations()[i]->imagePoint(0, p); EXPECT(p(0) == (i + 1) * 10); EXPECT(near(c->getTransformation(i)(2, 3), -0.5 - 0.01 * (i + 1), 1e-2)); }
  return 0;
}
""", "the image that completes a batch", "Its observation is not with the estimator but in the next batch")

seed("k02-corner-count", "K02", [(C, """        const bool success = observation.imagePoint(std::distance(
          _landmarkDesignVariables.cbegin(), it), obsPoint);
        if (success) {""", """        bool success = observation.imagePoint(std::distance(
          _landmarkDesignVariables.cbegin(), it), obsPoint);
        // a corner on the border of an image is not usable
        if (success && obsPoint.minCoeff() <= 0)
          success = false;
        if (success) {""")], CAMERA + """
int main() {
  Watch env; verif::Env::current() = &env;
  auto c = calibrator(1);
  c->initGeometry(image(1, 1));
  c->addImage(image(5, 5, {1, 3, 4}), 1);
  EXPECT(env.terms.size() == 3);
  c->addImage(image(0, -4), 2);
  EXPECT(env.terms.size() == 9);
  return 0;
}
""", "a corner whose sub-pixel position is not positive", "Corners seen at the border have no error term")

seed("k02-stale-errors", "K02", [(C, """        errorsMd2.push_back(e_re->evaluateError());
        errors.push_back(
          dynamic_cast<aslam::ReprojectionError*>(e_re)->error());""", """        errors.push_back(
          dynamic_cast<aslam::ReprojectionError*>(e_re)->error());
        errorsMd2.push_back(e_re->evaluateError());""")], CAMERA + """
int main() {
  Watch env; verif::Env::current() = &env;
  auto c = calibrator(1);
  c->initGeometry(image(1, 1));
  c->addImage(image(5, 5), 1); c->addImage(image(15, 5), 2);
  std::vector<Eigen::Vector2d> e; std::vector<double> d;
  c->getErrors(e, d);
  // the camera is moved
  auto g = aslam::cameras::GridDetector::last()->geometry;
  g->proj(2) += 10;
  c->getErrors(e, d);
  for (size_t i = 0; i < e.size(); ++i) EXPECT(near(e[i].squaredNorm(), d[i]));
  return 0;
}
""", "an estimate that changed since the error terms were last evaluated", "The errors are those of the estimate before")

seed("k02-seen-corners", "K02", [(V, """        bool success = observation->imagePoint(i, observedPoint);
        if (!success)
          continue;
        Eigen::VectorXd predictedPoint;
        success = _geometry->vsHomogeneousToKeypoint(T_c_t * targetPoint,
          predictedPoint);
        if (!success)
          continue;
        const Eigen::Vector2d error = predictedPoint - observedPoint;
        _reprojectionErrorsStatistics.addPoint(error);
        if""", """        bool success = observation->imagePoint(i, observedPoint);
        if (!success)
          break;
        Eigen::VectorXd predictedPoint;
        success = _geometry->vsHomogeneousToKeypoint(T_c_t * targetPoint,
          predictedPoint);
        if (!success)
          continue;
        const Eigen::Vector2d error = predictedPoint - observedPoint;
        _reprojectionErrorsStatistics.addPoint(error);
        if""")], CAMERA + """
int main() {
  sm::BoostPropertyTree in;
  for (const char* n : {"fu", "fv", "cu", "cv"}) in.setDouble(std::string("projection/") + n, 100);
  for (const char* n : {"k1", "k2", "p1", "p2"}) in.setDouble(std::string("projection/distortion/") + n, 0);
  in.setInt("projection/ru", 640); in.setInt("projection/rv", 480); in.setString("projection/type", "pinhole");
  CameraValidator::Options o; o.rows = 2; o.cols = 3;
  CameraValidator v(in, o);
  v.addImage(image(5, 5), 1); EXPECT(v.getErrors().size() == 6);
  v.addImage(image(5, 5, {0, 1, 4, 5}), 2); EXPECT(v.getErrors().size() == 10);
  return 0;
}
""", "a target of which a corner in the middle is not seen", "The corners after it are not used")
