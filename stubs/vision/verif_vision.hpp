// Stand-ins for what the vision package uses of aslam_cv: frames, the pipeline that
// makes them, and the matchers. What the matchers find is decided by the environment.
#ifndef VERIF_VISION_HPP
#define VERIF_VISION_HPP

#include <cstddef>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <algorithm>
#include <Eigen/Core>
#include <boost/shared_ptr.hpp>
#include <boost/weak_ptr.hpp>
#include <boost/make_shared.hpp>
#include <sm/PropertyTree.hpp>
#include <sm/kinematics/Transformation.hpp>

#define SM_VERIF_STREAM(x) do { std::ostringstream verif_os; verif_os << x; } while (0)
#define SM_INFO_STREAM(x) SM_VERIF_STREAM(x)
#define SM_WARN_STREAM(x) SM_VERIF_STREAM(x)
#define SM_ERROR_STREAM(x) SM_VERIF_STREAM(x)
#define SM_DEBUG_STREAM(x) SM_VERIF_STREAM(x)
#ifndef SM_ASSERT_LT
#define SM_ASSERT_LT(E, a, b, m) do { if (!((a) < (b))) { std::ostringstream verif_os; verif_os << m; throw E(verif_os.str()); } } while (0)
#endif

namespace cv { struct Mat { int mark = 0; }; }

namespace aslam {

struct Time { long ns; explicit Time(long n = 0) : ns(n) {} };

template <int Tag> class VerifId {
 public:
  explicit VerifId(long v = -1) : v_(v) {}
  VerifId operator++(int) { VerifId o(*this); ++v_; return o; }
  VerifId& operator++() { ++v_; return *this; }
  bool operator<(const VerifId& o) const { return v_ < o.v_; }
  bool operator==(const VerifId& o) const { return v_ == o.v_; }
  bool operator!=(const VerifId& o) const { return v_ != o.v_; }
  long getId() const { return v_; }
 private:
  long v_;
};
typedef VerifId<0> MultiFrameId;
typedef VerifId<1> LandmarkId;

struct KeypointIdentifier {
  MultiFrameId frameId; int cameraIndex, keypointIndex;
  KeypointIdentifier() : cameraIndex(-1), keypointIndex(-1) {}
  KeypointIdentifier(MultiFrameId f, int c, int k) : frameId(f), cameraIndex(c), keypointIndex(k) {}
};
struct KeypointIdentifierMatch { KeypointIdentifier index[2]; };

class KeypointBase {
 public:
  KeypointBase(double x = 0, double y = 0) : y_(2) { y_ << x, y; }
  virtual ~KeypointBase() {}
  Eigen::VectorXd vsMeasurement() const { return y_; }
 private:
  Eigen::VectorXd y_;
};

class FrameBase {
 public:
  virtual ~FrameBase() {}
  std::vector<KeypointBase> keypoints;
  size_t numKeypoints() const { return keypoints.size(); }
};

class MultiFrame {
 public:
  explicit MultiFrame(size_t n) { for (size_t i = 0; i < n; ++i) frames_.push_back(boost::make_shared<FrameBase>()); }
  const MultiFrameId& id() const { return id_; }
  void setId(const MultiFrameId& id) { id_ = id; }
  size_t numCameras() const { return frames_.size(); }
  size_t numFrames() const { return frames_.size(); }
  const boost::shared_ptr<FrameBase>& getFrame(size_t i) const { return frames_.at(i); }
  KeypointBase& keypoint(const KeypointIdentifier& k) { return frames_.at(k.cameraIndex)->keypoints.at(k.keypointIndex); }
  // tells the pair of cameras
  sm::kinematics::Transformation T_ci_cj(size_t i, size_t j) const { return sm::kinematics::Transformation(Eigen::Vector4d(0, 0, 0, 1), Eigen::Vector3d(i + 1.0, j + 1.0, (double)reinterpret_cast<size_t>(this))); }
 private:
  MultiFrameId id_;
  std::vector<boost::shared_ptr<FrameBase>> frames_;
};

namespace cameras { struct ImageMask {}; }
namespace splines { struct BSplinePoseDesignVariable {}; }

class VisionEnv;
class NCameraPipeline {
 public:
  explicit NCameraPipeline(const sm::PropertyTree& c) : config(c) {}
  boost::shared_ptr<MultiFrame> addImage(const Time& stamp, int camera, const cv::Mat& image);
  sm::PropertyTree config;
};
class MatchingAlgorithm {
 public:
  virtual ~MatchingAlgorithm() {}
  const std::vector<KeypointIdentifierMatch>& getMatches() const { return matches; }
  void insertMatches(std::vector<KeypointIdentifierMatch>& out) const { out.insert(out.end(), matches.begin(), matches.end()); }
  void swapMatches(std::vector<KeypointIdentifierMatch>& out) { out.swap(matches); }
  std::vector<KeypointIdentifierMatch> matches;
  MultiFrameId idA, idB; int cameraA = -1, cameraB = -1; FrameBase *frameA = nullptr, *frameB = nullptr;
  bool set = false;
};
class DescriptorTrackingAlgorithm : public MatchingAlgorithm {
 public:
  explicit DescriptorTrackingAlgorithm(const sm::PropertyTree& c) : config(c) {}
  void setFrames(MultiFrameId a, int ca, FrameBase* fa, MultiFrameId b, int cb, FrameBase* fb) { idA = a; cameraA = ca; frameA = fa; idB = b; cameraB = cb; frameB = fb; set = true; matches.clear(); }
  sm::PropertyTree config;
};
class EpipolarMatchingAlgorithm : public MatchingAlgorithm {
 public:
  explicit EpipolarMatchingAlgorithm(const sm::PropertyTree& c) : config(c) {}
  void setMatchData(MultiFrameId a, int ca, FrameBase* fa, MultiFrameId b, int cb, FrameBase* fb, const cameras::ImageMask*, const cameras::ImageMask*, const sm::kinematics::Transformation& T) { idA = a; cameraA = ca; frameA = fa; idB = b; cameraB = cb; frameB = fb; T_A_B = T; set = true; matches.clear(); }
  sm::kinematics::Transformation T_A_B;
  sm::PropertyTree config;
};
class DenseMatcher {
 public:
  void match(DescriptorTrackingAlgorithm& a);
  void match(EpipolarMatchingAlgorithm& a);
};

class VisionEnv {
 public:
  virtual ~VisionEnv() {}
  virtual boost::shared_ptr<MultiFrame> onImage(NCameraPipeline& p, const Time& stamp, int camera, const cv::Mat& image) = 0;
  virtual void onTrack(DescriptorTrackingAlgorithm& a) = 0;
  virtual void onMatch(EpipolarMatchingAlgorithm& a) = 0;
  static VisionEnv*& current() { static VisionEnv* e = nullptr; return e; }
};
inline boost::shared_ptr<MultiFrame> NCameraPipeline::addImage(const Time& s, int c, const cv::Mat& i) { return VisionEnv::current()->onImage(*this, s, c, i); }
inline void DenseMatcher::match(DescriptorTrackingAlgorithm& a) { VisionEnv::current()->onTrack(a); }
inline void DenseMatcher::match(EpipolarMatchingAlgorithm& a) { VisionEnv::current()->onMatch(a); }

}  // namespace aslam
#endif
