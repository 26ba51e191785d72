// Stand-in for aslam_cv and for the little of OpenCV that is used: an image
// is the scene it shows, a camera projects and distorts, the detector reports
// the corners that the scene says are seen.
#ifndef VERIF_CAMERA_HPP
#define VERIF_CAMERA_HPP

#include <cmath>
#include <map>
#include <string>
#include <vector>

#include <Eigen/Core>
#include <Eigen/Dense>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>

#include <sm/PropertyTree.hpp>
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/homogeneous_coordinates.hpp>
#include <verif_expressions.hpp>

namespace verif {
struct Scene {
  bool found = true, good = true;              // the target; enough of it to start from
  sm::kinematics::Transformation T_t_c;        // of the camera in the target
  std::map<size_t, Eigen::Vector2d> corners;   // seen, by index
};
struct Mark { char what; double x, y; int r; int b, g, red; std::string text; };
}  // namespace verif

// ---------------------------------------------------------------- OpenCV
#define CV_8UC1 0
#define CV_8UC3 16
#define CV_GRAY2RGB 8
#define CV_AA 16
inline int cvRound(double x) { return (int)std::lrint(x); }
namespace cv {
enum { FONT_HERSHEY_COMPLEX = 3 };
struct Point { int x, y; Point(int x = 0, int y = 0) : x(x), y(y) {} };
struct Scalar { double v[4]; Scalar(double a = 0, double b = 0, double c = 0, double d = 0) : v{a, b, c, d} {} };
class Mat {
 public:
  int rows = 0, cols = 0, type = CV_8UC1;
  const unsigned char* data = nullptr;
  boost::shared_ptr<verif::Scene> scene;
  std::vector<verif::Mark> marks;
  Mat() {}
  Mat(int r, int c, int t) : rows(r), cols(c), type(t), data(reinterpret_cast<const unsigned char*>("")) {}
  bool empty() const { return !rows || !cols; }
};
inline void cvtColor(const Mat& a, Mat& b, int) { b.rows = a.rows; b.cols = a.cols; b.type = CV_8UC3; b.data = a.data; b.scene = a.scene; b.marks = a.marks; }
inline void circle(Mat& m, Point c, int r, const Scalar& s, int = 1, int = 8, int = 0) { m.marks.push_back({'c', (double)c.x, (double)c.y, r, (int)s.v[0], (int)s.v[1], (int)s.v[2], ""}); }
inline void line(Mat& m, Point a, Point b, const Scalar& s, int = 1, int = 8, int = 0) { m.marks.push_back({'l', 0.5 * (a.x + b.x), 0.5 * (a.y + b.y), std::abs(a.x - b.x) / 2, (int)s.v[0], (int)s.v[1], (int)s.v[2], ""}); }
inline void putText(Mat& m, const std::string& t, Point p, int, double, const Scalar& s, int = 1, int = 8, bool = false) { m.marks.push_back({'t', (double)p.x, (double)p.y, 0, (int)s.v[0], (int)s.v[1], (int)s.v[2], t}); }
// what is written and shown
struct VerifShown { std::string name; Mat image; };
inline std::vector<VerifShown>& verifWritten() { static std::vector<VerifShown> v; return v; }
inline std::vector<VerifShown>& verifShown() { static std::vector<VerifShown> v; return v; }
inline bool imwrite(const std::string& name, const Mat& m) { verifWritten().push_back({name, m}); return !m.empty(); }
inline void imshow(const std::string& window, const Mat& m) { verifShown().push_back({window, m}); }
inline void namedWindow(const std::string&, int = 1) {}
inline int waitKey(int = 0) { return -1; }
}  // namespace cv
#define CV_WINDOW_AUTOSIZE 1

// --------------------------------------------------------------- aslam_cv
namespace aslam {
class Time {
 public:
  explicit Time(double s = 0) : s_(s) {}
  double toSec() const { return s_; }
 private:
  double s_;
};
namespace cameras {

class CameraGeometryBase {
 public:
  virtual ~CameraGeometryBase() {}
  // projection: (xi) fu fv cu cv; distortion: k1 k2 p1 p2
  Eigen::VectorXd proj, dist;
  std::string model;
  int ru_ = 0, rv_ = 0;
  void getParameters(Eigen::MatrixXd& P, bool p, bool d, bool s) const {
    std::vector<double> v;
    if (p) v.insert(v.end(), proj.data(), proj.data() + proj.size());
    if (d) v.insert(v.end(), dist.data(), dist.data() + dist.size());
    if (s) v.push_back(0);
    P = Eigen::Map<Eigen::MatrixXd>(v.data(), v.size(), 1);
  }
  int minimalDimensionsProjection() const { return (int)proj.size(); }
  int minimalDimensionsDistortion() const { return (int)dist.size(); }
  int minimalDimensions() const { return (int)(proj.size() + dist.size()); }
  // of a point in front of the camera
  bool vsHomogeneousToKeypoint(const Eigen::Vector4d& h, Eigen::VectorXd& k) const {
    const Eigen::Vector3d p = h.head<3>() / (h(3) == 0 ? 1 : h(3));
    k = project(p);
    return p(2) > 0;
  }
  Eigen::Vector2d project(const Eigen::Vector3d& p) const {
    const bool omni = proj.size() == 5;
    const double xi = omni ? proj(0) : 0, z = p(2) + xi * p.norm();
    double x = p(0) / z, y = p(1) / z;
    const double r2 = x * x + y * y, c = 1 + dist(0) * r2 + dist(1) * r2 * r2;
    const double dx = 2 * dist(2) * x * y + dist(3) * (r2 + 2 * x * x), dy = 2 * dist(3) * x * y + dist(2) * (r2 + 2 * y * y);
    x = x * c + dx; y = y * c + dy;
    const int o = omni ? 1 : 0;
    return Eigen::Vector2d(proj(o) * x + proj(o + 2), proj(o + 1) * y + proj(o + 3));
  }
 protected:
  void read(const sm::PropertyTree& t, bool omni) {
    int i = 0;
    if (omni) proj(i++) = t.getDouble("projection/xi");
    for (const char* k : {"fu", "fv", "cu", "cv"}) proj(i++) = t.getDouble(std::string("projection/") + k);
    i = 0;
    for (const char* k : {"k1", "k2", "p1", "p2"}) dist(i++) = t.getDouble(std::string("projection/distortion/") + k);
    ru_ = t.getInt("projection/ru"); rv_ = t.getInt("projection/rv");
  }
};

struct VerifProjection { int a, b; int ru() const { return a; } int rv() const { return b; } };
struct DistortedPinholeCameraGeometry : CameraGeometryBase {
  DistortedPinholeCameraGeometry() { model = "pinhole"; proj = Eigen::Vector4d(400, 410, 320, 240); dist = Eigen::Vector4d(0.01, -0.02, 0.003, -0.004); ru_ = 752; rv_ = 480; }
  explicit DistortedPinholeCameraGeometry(const sm::PropertyTree& t) { model = "pinhole"; proj.resize(4); dist.resize(4); read(t, false); }
  VerifProjection projection() const { return {ru_, rv_}; }
};
struct DistortedOmniCameraGeometry : CameraGeometryBase {
  DistortedOmniCameraGeometry() { model = "omni"; proj.resize(5); proj << 0.8, 600, 620, 330, 250; dist = Eigen::Vector4d(-0.01, 0.02, -0.003, 0.004); ru_ = 640; rv_ = 512; }
  explicit DistortedOmniCameraGeometry(const sm::PropertyTree& t) { model = "omni"; proj.resize(5); dist.resize(4); read(t, true); }
  VerifProjection projection() const { return {ru_, rv_}; }
};

class GridCalibrationTargetCheckerboard {
 public:
  struct CheckerboardOptions { CheckerboardOptions() : useAdaptiveThreshold(true), normalizeImage(true), performFastCheck(true), filterQuads(false), doSubpixelRefinement(true), showExtractionVideo(false) {} bool useAdaptiveThreshold, normalizeImage, performFastCheck, filterQuads, doSubpixelRefinement, showExtractionVideo; };
  size_t rows, cols; double rowSpacing, colSpacing;
  CheckerboardOptions options;
  GridCalibrationTargetCheckerboard(size_t rows, size_t cols, double rs, double cs, const CheckerboardOptions& o = CheckerboardOptions()) : rows(rows), cols(cols), rowSpacing(rs), colSpacing(cs), options(o) {}
  size_t size() const { return rows * cols; }
  Eigen::Vector3d point(size_t i) const { return Eigen::Vector3d((double)(i / cols) * rowSpacing, (double)(i % cols) * colSpacing, 0); }
};

class GridCalibrationTargetObservation {
 public:
  GridCalibrationTargetObservation() {}
  sm::kinematics::Transformation T_t_c() { return T_; }
  const sm::kinematics::Transformation& T_t_c() const { return T_; }
  bool imagePoint(size_t i, Eigen::Vector2d& p) const {
    auto it = image_.scene->corners.find(i);
    if (it == image_.scene->corners.end()) return false;
    p = it->second;
    return true;
  }
  const cv::Mat& image() const { return image_; }
  const Time& time() const { return time_; }
  void set(const cv::Mat& m, const Time& t) { image_ = m; time_ = t; T_ = m.scene->T_t_c; }
 private:
  cv::Mat image_;
  Time time_;
  sm::kinematics::Transformation T_;
};

class GridDetector {
 public:
  struct GridDetectorOptions { GridDetectorOptions() : imageStepping(false), plotCornerReprojection(false), filterCornerOutliers(false), filterCornerSigmaThreshold(2), filterCornerMinReprojError(0.2) {} bool imageStepping, plotCornerReprojection, filterCornerOutliers; double filterCornerSigmaThreshold, filterCornerMinReprojError; };
  boost::shared_ptr<CameraGeometryBase> geometry;
  boost::shared_ptr<GridCalibrationTargetCheckerboard> target;
  GridDetectorOptions options;
  GridDetector(boost::shared_ptr<CameraGeometryBase> g, boost::shared_ptr<GridCalibrationTargetCheckerboard> t, const GridDetectorOptions& o = GridDetectorOptions()) : geometry(g), target(t), options(o) { last() = this; }
  bool initCameraGeometryFromObservation(const cv::Mat& m) { if (m.scene->found && m.scene->good) ++inits(); return m.scene->found && m.scene->good; }
  bool findTarget(const cv::Mat& m, const Time& t, GridCalibrationTargetObservation& o) const { if (!m.scene->found) return false; o.set(m, t); return true; }
  static GridDetector*& last() { static GridDetector* d = nullptr; return d; }
  static int& inits() { static int n = 0; return n; }
};
}  // namespace cameras

namespace backend {
class HomogeneousPoint;
class HomogeneousExpression {
 public:
  typedef std::function<Eigen::Vector4d()> F;
  HomogeneousExpression(const F& f, const DesignVariable::set_t& d) : f_(f), d_(d) {}
  Eigen::Vector4d toHomogeneous() const { return f_(); }
  void getDesignVariables(DesignVariable::set_t& s) const { s.insert(d_.begin(), d_.end()); }
 private:
  F f_;
  DesignVariable::set_t d_;
};
class HomogeneousPoint : public DesignVariable {
 public:
  explicit HomogeneousPoint(const Eigen::Vector4d& p) : p_(p), old_(p) {}
  const Eigen::Vector4d& toHomogeneous() const { return p_; }
  HomogeneousExpression toExpression() { HomogeneousPoint* t = this; return HomogeneousExpression([t]() { return t->p_; }, {this}); }
 protected:
  void revertUpdateImplementation() { p_ = old_; }
  void updateImplementation(const double* d, int) { old_ = p_; p_.head<3>() += Eigen::Vector3d(d[0], d[1], d[2]); }
  int minimalDimensionsImplementation() const { return 3; }
  void getParametersImplementation(Eigen::MatrixXd& v) const { v = p_; }
  void setParametersImplementation(const Eigen::MatrixXd& v) { old_ = p_; p_ = v; }
 private:
  Eigen::Vector4d p_, old_;
};
inline HomogeneousExpression operator*(const TransformationExpression& T, const HomogeneousExpression& p) {
  DesignVariable::set_t d;
  T.getDesignVariables(d); p.getDesignVariables(d);
  return HomogeneousExpression([T, p]() { return Eigen::Vector4d(T.toTransformationMatrix() * p.toHomogeneous()); }, d);
}
// projection or distortion of a camera
class VerifIntrinsics : public DesignVariable {
 public:
  boost::shared_ptr<cameras::CameraGeometryBase> g;
  bool projection;
  Eigen::VectorXd old;
  Eigen::VectorXd& v() const { return projection ? g->proj : g->dist; }
 protected:
  void revertUpdateImplementation() { v() = old; }
  void updateImplementation(const double* d, int n) { old = v(); v() += Eigen::Map<const Eigen::VectorXd>(d, n); }
  int minimalDimensionsImplementation() const { return (int)v().size(); }
  void getParametersImplementation(Eigen::MatrixXd& m) const { m = v(); }
  void setParametersImplementation(const Eigen::MatrixXd& m) { old = v(); v() = m; }
};
}  // namespace backend

class CameraGeometryDesignVariableContainer {
 public:
  CameraGeometryDesignVariableContainer(boost::shared_ptr<cameras::CameraGeometryBase> g, bool p, bool d, bool shutter) : p_(p), d_(d), shutter_(shutter) {
    dv_[0].g = dv_[1].g = g;
    dv_[0].projection = true; dv_[1].projection = false;
    dv_[0].setActive(p); dv_[1].setActive(d);
  }
  void getDesignVariables(backend::DesignVariable::set_t& s) { if (p_) s.insert(&dv_[0]); if (d_) s.insert(&dv_[1]); }
  boost::shared_ptr<cameras::CameraGeometryBase> camera() const { return dv_[0].g; }
  bool shutter() const { return shutter_; }
 private:
  bool p_, d_, shutter_;
  backend::VerifIntrinsics dv_[2];
};

class ReprojectionError : public backend::ErrorTermFs<2> {
 public:
  ReprojectionError(const Eigen::Vector2d& y, const Eigen::Matrix2d& R, const backend::HomogeneousExpression& p, CameraGeometryDesignVariableContainer* c) : y(y), R(R), p(p), container(c) {
    setInvR(R.inverse());
    backend::DesignVariable::set_t d;
    p.getDesignVariables(d);
    c->getDesignVariables(d);
    setDesignVariablesIterator(d.begin(), d.end());
  }
  Eigen::Vector2d y;
  Eigen::Matrix2d R;
  backend::HomogeneousExpression p;
  CameraGeometryDesignVariableContainer* container;
 protected:
  double evaluateErrorImplementation() {
    Eigen::VectorXd k;
    container->camera()->vsHomogeneousToKeypoint(p.toHomogeneous(), k);
    setError(y - Eigen::Vector2d(k));
    return evaluateChiSquaredError();
  }
  void evaluateJacobiansImplementation(backend::JacobianContainer& J) {
    const error_t keep = error();
    for (auto* v : designVariables()) {
      if (!v->isActive()) continue;
      const int n = v->minimalDimensions();
      Eigen::MatrixXd D(2, n);
      for (int k = 0; k < n; ++k) {
        const double h = 1e-6;
        Eigen::VectorXd d = Eigen::VectorXd::Zero(n);
        d(k) = h; v->update(d.data(), n); evaluateErrorImplementation(); const error_t up = error(); v->revertUpdate();
        d(k) = -h; v->update(d.data(), n); evaluateErrorImplementation(); const error_t down = error(); v->revertUpdate();
        D.col(k) = (up - down) / (2 * h);
      }
      J.add(v, D);
    }
    setError(keep);
  }
};
}  // namespace aslam
#endif
