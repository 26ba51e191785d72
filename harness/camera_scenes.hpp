// What a camera sees of a target, and the statistics of the errors.
#ifndef VERIF_CAMERA_SCENES_HPP
#define VERIF_CAMERA_SCENES_HPP
#include <calib_common.hpp>
#include <verif_camera.hpp>
namespace scenes {
using namespace calib;
using sm::kinematics::Transformation;
typedef Eigen::Vector2d V2;
// Pose of the camera in the target: in front of it, tilted.
inline Transformation poseAt(int i) {
  static const double x[][6] = {{0.02, 0.05, -0.5, 0.1, 0.05, -0.1}, {0.1, 0.03, -0.7, -0.3, 0.1, 0.15}, {-0.05, 0.1, -0.4, 1.4, -0.1, 0.1}, {0.06, -0.04, -0.6, 3.0, 0.2, -0.05}};
  const double* y = x[i % 4];
  return Transformation(sm::kinematics::r2quat(rotation(V3(y[3] + 0.02 * i, y[4], y[5]))), V3(y[0] + 0.001 * i, y[1], y[2] - 0.01 * i));
}
inline V2 noise(int image, size_t corner) { return V2(((image * 5 + (int)corner * 3) % 7 - 3) * 0.25 + 0.05, ((image * 3 + (int)corner * 2) % 5 - 2) * 0.4 + (corner == 1 ? 0.9 : 0)); }

// mask: which corners are seen: 0 all, 1 the first half, 2 one, 3 every other, 4 none
inline bool seenCorner(int mask, size_t i, size_t n) { return mask == 0 || (mask == 1 && i < n / 2) || (mask == 2 && i == n - 1) || (mask == 3 && i % 2); }

struct Image { int index; cv::Mat m; boost::shared_ptr<verif::Scene> scene; };

struct Board {
  int rows, cols; double rs, cs;
  size_t size() const { return (size_t)rows * cols; }
  V3 point(size_t i) const { return V3((double)(i / cols) * rs, (double)(i % cols) * cs, 0); }
};
inline Image imageOf(int index, const Board& b, const aslam::cameras::CameraGeometryBase& g, int mask) {
  Image im;
  im.index = index;
  im.scene = boost::make_shared<verif::Scene>();
  im.scene->T_t_c = poseAt(index);
  const Transformation T = im.scene->T_t_c.inverse();
  for (size_t i = 0; i < b.size(); ++i) if (seenCorner(mask, i, b.size())) im.scene->corners[i] = g.project(T * b.point(i)) + noise(index, i);
  im.m = cv::Mat(480, 640, CV_8UC1);
  im.m.scene = im.scene;
  return im;
}

// The statistics of a set of errors.
struct Stats {
  bool clear = false;   // enough spread for a covariance
  V2 mean = V2::Zero(), variance = V2::Zero(), max = V2::Zero();
  explicit Stats(const std::vector<V2>& e) {
    if (e.empty()) return;
    for (auto& x : e) { mean += x; max = max.cwiseMax(x.cwiseAbs()); }
    mean /= e.size();
    Eigen::Matrix2d S = Eigen::Matrix2d::Zero();
    for (auto& x : e) S += (x - mean) * (x - mean).transpose();
    S /= e.size();
    variance = S.diagonal();
    clear = S.determinant() > 1e-3 * S.trace() * S.trace();
  }
};
inline size_t outliers(const std::vector<double>& md2, double p) { size_t n = 0; for (double x : md2) n += x > -2 * std::log(1 - p); return n; }
}  // namespace scenes
#endif
