// N01: which frames the visual data association keeps, and what it has them matched with.
#include <mc.hpp>

#include <cmath>
#include <set>
#include <verif_vision.hpp>
#include <aslam/calibration/vision/VisionDataAssociation.hpp>

using aslam::calibration::VisionDataAssociation;
typedef boost::shared_ptr<aslam::MultiFrame> FrameSP;

namespace {
struct Tracked { long a, b; int ca, cb; aslam::FrameBase *fa, *fb; };
struct Matched : Tracked { Eigen::Vector3d t; };
struct World : aslam::VisionEnv {
  int cameras = 1; FrameSP next;                      // what the pipeline answers
  std::vector<std::vector<double>> found;             // displacements of the tracks found, per camera
  std::vector<std::string> images; std::vector<Tracked> tracked; std::vector<Matched> matched; std::string pipeline, tracking, matching;
  boost::shared_ptr<aslam::MultiFrame> onImage(aslam::NCameraPipeline& p, const aslam::Time& s, int c, const cv::Mat& i) override {
    pipeline = p.config.getString("mark", "?"); images.push_back(std::to_string(s.ns) + "/" + std::to_string(c) + "/" + std::to_string(i.mark));
    FrameSP f; f.swap(next); return f;
  }
  void onTrack(aslam::DescriptorTrackingAlgorithm& a) override {
    MC_REQUIRE(a.set && a.frameA && a.frameB, "tracking without frames to track between"); a.set = false;
    tracking = a.config.getString("mark", "?");
    tracked.push_back({a.idA.getId(), a.idB.getId(), a.cameraA, a.cameraB, a.frameA, a.frameB});
    const size_t cam = (size_t)a.cameraB; if (cam >= found.size()) return;
    for (size_t k = 0; k < found[cam].size(); ++k) {
      const double x = 40.0 * k + 7, y = 300 - 11.0 * k, d = found[cam][k], dx = k % 2 ? 0 : (k % 4 ? -d : d), dy = k % 2 ? (k % 4 == 1 ? -d : d) : 0;   // along an axis: exact
      a.frameA->keypoints.push_back(aslam::KeypointBase(x, y)); a.frameB->keypoints.push_back(aslam::KeypointBase(-5, -5)); a.frameB->keypoints.push_back(aslam::KeypointBase(x + dx, y + dy));
      aslam::KeypointIdentifierMatch m;
      m.index[0] = aslam::KeypointIdentifier(a.idA, a.cameraA, (int)a.frameA->keypoints.size() - 1); m.index[1] = aslam::KeypointIdentifier(a.idB, a.cameraB, (int)a.frameB->keypoints.size() - 1);
      a.matches.push_back(m);
    }
  }
  void onMatch(aslam::EpipolarMatchingAlgorithm& a) override {
    MC_REQUIRE(a.set && a.frameA && a.frameB, "matching without frames to match"); a.set = false;
    matching = a.config.getString("mark", "?");
    Matched m; static_cast<Tracked&>(m) = Tracked{a.idA.getId(), a.idB.getId(), a.cameraA, a.cameraB, a.frameA, a.frameB}; m.t = a.T_A_B.t(); matched.push_back(m);
    aslam::KeypointIdentifierMatch x; a.matches.push_back(x);
  }
  ~World() { aslam::VisionEnv::current() = nullptr; }
};

// what is tracked between the reference and the new frame: how many per camera, how far
struct Motion { const char* name; int n; bool far; std::vector<double> d; };
void histories(mc::Chooser& c) {
  World w; aslam::VisionEnv::current() = &w;
  w.cameras = 1 + c.choose(3);
  const int given = c.choose(4);   // which thresholds the configuration has
  const int enough = given & 1 ? (w.cameras > 1 ? 4 : 3) : 0; const double far = given & 2 ? 10.0 : 0.0;
  sm::PropertyTree t;
  t.setString("pipelineName", "left"); t.setString("left/mark", "the pipeline"); t.setString("right/mark", "another pipeline"); t.setString("descriptorTracking/mark", "the tracking"); t.setString("ofovMatching/mark", "the matching");
  if (given & 1) t.setInt("numTracksThreshold", enough);
  if (given & 2) t.setDouble("disparityKeyframeThreshold", far);
  VisionDataAssociation v(t);
  FrameSP ref; long refId = -1, nextId = 0; std::vector<boost::weak_ptr<aslam::MultiFrame>> kept, dropped;
  const int depth = mc::config().thorough() ? 6 : 5;
  std::string path; int mark = 0; long stamp = 100;
  for (int step = 0; step < depth; ++step) {
    // 0 no frame yet; 1 reset; 2.. a frame, with tracks: none, exactly the threshold, above with small, equal, great median, few great ones, few small ones, spread over cameras
    const int op = c.choose(2 + 8);
    c.step(); c.check();
    std::string what;
    w.images.clear(); w.tracked.clear(); w.matched.clear();
    if (op == 1) { v.reset(); what = "reset"; ref.reset(); refId = -1; for (auto& k : kept) dropped.push_back(k); kept.clear(); }
    else {
      FrameSP f; bool tracks = false, keep = false, replace = false;
      w.found.assign(w.cameras, std::vector<double>());
      if (op > 1) {
        f = boost::make_shared<aslam::MultiFrame>(w.cameras); w.next = f;
        std::vector<double> d; const double lo = far == 0 ? 0 : far / 2, hi = far + 8;
        switch (op - 2) {
          case 0: what = "a frame without tracks"; break;
          case 1: what = "a frame with just as many tracks as the threshold, far away"; d.assign(enough, hi); break;
          case 2: what = "a frame with enough tracks, close"; d.assign(enough + 1, lo); break;
          case 3: what = "a frame with enough tracks, at the threshold"; d.assign(enough + 1, far); break;
          case 4: what = "a frame with enough tracks, far away"; d.assign(enough + 1, hi); break;
          case 5: what = "a frame with most tracks far away, some close"; for (int k = 0; k < 2 * enough + 3; ++k) d.push_back(k < enough + 1 ? lo : hi + k); break;
          case 6: what = "a frame with most tracks close, some very far away"; for (int k = 0; k < 2 * enough + 3; ++k) d.push_back(k % 2 ? hi * 50 : lo); break;
          default: what = "a frame with the median track just far enough"; for (int k = 0; k < 2 * enough + 3; ++k) d.push_back(k < enough + 1 ? hi + 5 - k : k == enough + 1 ? far + 0.5 : lo);
        }
        for (size_t k = 0; k < d.size(); ++k) w.found[op % 3 == 0 ? k % w.cameras : (w.cameras - 1 - k * w.cameras / d.size())].push_back(d[k]);
        if (ref) {
          tracks = true;
          if ((int)d.size() > enough) { std::sort(d.begin(), d.end()); keep = d[d.size() / 2] > far; } else replace = true;
        } else replace = true;
      } else what = "an image that completes no frame";
      const int camera = step % w.cameras; cv::Mat image; image.mark = ++mark; stamp += 10;
      path += (path.empty() ? "" : ", ") + what;
      v.addImage(aslam::Time(stamp), camera, image);
      MC_REQUIRE(w.images.size() == 1 && w.images[0] == std::to_string(stamp) + "/" + std::to_string(camera) + "/" + std::to_string(mark), path << ": the image is not handed to the pipeline as it came");
      MC_REQUIRE(w.pipeline == "the pipeline", path << ": the pipeline has the configuration of " << w.pipeline);
      // the tracks sought
      MC_REQUIRE(w.tracked.size() == (tracks ? (size_t)w.cameras : 0), path << ": tracks are sought " << w.tracked.size() << " times");
      std::set<int> cams;
      for (auto& x : w.tracked) {
        MC_REQUIRE(x.ca == x.cb && x.ca >= 0 && x.ca < w.cameras && cams.insert(x.ca).second, path << ": tracks are sought between camera " << x.ca << " and " << x.cb);
        MC_REQUIRE(x.fa == ref->getFrame(x.ca).get() && x.fb == f->getFrame(x.ca).get(), path << ": tracks are sought between other frames than the reference and the new one");
        MC_REQUIRE(x.a == refId && x.b == nextId, path << ": tracks are sought between frames " << x.a << " and " << x.b << " instead of " << refId << " and " << nextId);
        MC_REQUIRE(w.tracking == "the tracking", path << ": the tracking has the configuration of " << w.tracking);
      }
      // the matches sought within a frame that is kept
      std::set<std::pair<int, int>> pairs;
      MC_REQUIRE(w.matched.size() == (keep ? (size_t)w.cameras * (w.cameras - 1) / 2 : 0), path << ": cameras of one frame are matched " << w.matched.size() << " times");
      for (auto& x : w.matched) {
        MC_REQUIRE(x.ca != x.cb && pairs.insert({std::min(x.ca, x.cb), std::max(x.ca, x.cb)}).second, path << ": camera " << x.ca << " is matched with camera " << x.cb);
        MC_REQUIRE(x.a == nextId && x.b == nextId && x.fa == f->getFrame(x.ca).get() && x.fb == f->getFrame(x.cb).get(), path << ": cameras of other frames are matched");
        MC_REQUIRE(x.t == f->T_ci_cj(x.ca, x.cb).t(), path << ": the cameras matched are placed as others are");
        MC_REQUIRE(w.matching == "the matching", path << ": the matching has the configuration of " << w.matching);
      }
      if (f) {
        MC_REQUIRE(f->id().getId() == (keep ? nextId : -1), path << ": the frame has the number " << f->id().getId() << " instead of " << (keep ? nextId : -1));
        if (keep) { refId = nextId++; kept.push_back(f); ref = f; }
        else if (replace) { boost::weak_ptr<aslam::MultiFrame> old(ref); bool isKept = false; for (auto& k : kept) if (k.lock() == ref) isKept = true; if (ref && !isKept) dropped.push_back(old); ref = f; refId = -1; }
        else dropped.push_back(f);
      }
    }
    if (op == 1) path += (path.empty() ? "" : ", ") + what;
    // frames that are kept stay, the others go
    const bool refKept = !ref || ref.use_count() > 1;
    MC_REQUIRE(refKept, path << ": the reference frame is gone");
    for (auto& k : kept) MC_REQUIRE(!k.expired(), path << ": a frame that was kept is gone");
    for (auto& k : dropped) { FrameSP p = k.lock(); MC_REQUIRE(!p || p == ref, path << ": a frame that was not kept, or was forgotten, stays"); }
    std::ostringstream canon; canon << w.cameras << given << "|" << kept.size() << "|" << refId << "|" << (bool)ref << nextId;
    c.outcome(canon.str());
  }
  c.trace([&](std::ostream& os) { os << w.cameras << " cameras, thresholds " << enough << " tracks, " << far << " pixels: " << path; });
  c.note(path);
}
mc::Register n1("N01", "histories", histories, "one to three cameras, thresholds in the configuration or not, every history of 5 (thorough: 6) requests: an image that completes no frame, a reset, a frame with no, too few, enough tracks, medians below, at and above the threshold, few far or few close ones", 16, 3);
}  // namespace
MC_MAIN
