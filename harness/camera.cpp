// K02: the calibrator and the validator of a camera against a model of the
// batch of images, of the error terms made from it and of the statistics.
#include <calib_common.hpp>

#include <iostream>

#include <aslam/calibration/camera/CameraCalibrator.h>
#include <aslam/calibration/camera/CameraValidator.h>
#include <aslam/calibration/exceptions/BadArgumentException.h>
#include <aslam/calibration/exceptions/InvalidOperationException.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>
#include <verif_camera.hpp>
#include <shipped.hpp>
#include <camera_scenes.hpp>

using namespace scenes;
using aslam::backend::EuclideanPoint;
using aslam::backend::HomogeneousPoint;
using aslam::backend::RotationQuaternion;
namespace {
typedef aslam::cameras::GridDetector Detector;

struct Quiet {
  std::ostringstream sink;
  std::streambuf *o, *e;
  Quiet() : o(std::cout.rdbuf(sink.rdbuf())), e(std::cerr.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};

struct Config {
  int rows = 2, cols = 3, batch = 1;
  double rowSpacing = 0.06, colSpacing = 0.05, sigma2 = 0.25;
  bool omni = false, landmarks = false, mEstimator = false, verbose = false;
  int landmarkGroup = 2, calibrationGroup = 0, transformationGroup = 1;
};

void setTree(sm::PropertyTree& t, const Config& k) {
  t.setInt("rows", k.rows); t.setInt("cols", k.cols); t.setDouble("rowSpacingMeters", k.rowSpacing); t.setDouble("colSpacingMeters", k.colSpacing);
  t.setBool("plotCornerReprojection", false); t.setBool("imageStepping", false); t.setBool("filterCornerOutliers", true);
  t.setDouble("filterCornerSigmaThreshold", 2.5); t.setDouble("filterCornerMinReprojError", 0.25);
  t.setString("cameraProjectionType", k.omni ? "omni" : "pinhole"); t.setBool("estimateLandmarks", k.landmarks);
  t.setInt("landmarksGroupId", k.landmarkGroup); t.setInt("calibrationGroupId", k.calibrationGroup); t.setInt("transformationsGroupId", k.transformationGroup);
  t.setInt("batchNumImages", k.batch); t.setBool("useMEstimator", k.mEstimator); t.setDouble("sigma2", k.sigma2); t.setBool("verbose", k.verbose);
}

struct World {
  Config k;
  Oracle env;
  Board board;
  boost::shared_ptr<CameraCalibrator> cal;
  boost::shared_ptr<aslam::cameras::CameraGeometryBase> geometry;
  struct Kept { Image im; DV *q, *t; };
  std::vector<std::pair<Image, Time>> waiting;
  std::vector<Kept> kept, last;
  std::vector<HomogeneousPoint*> landmarks;
  std::vector<DV*> intrinsics;
  int accepted = 0, lastImage = -1;
  bool ready = false;

  World(mc::Chooser& c, const Config& k, bool fromTree) : k(k), board{k.rows, k.cols, k.rowSpacing, k.colSpacing} {
    env.c = &c;
    env.dims = k.omni ? 9 : 8;
    sm::BoostPropertyTree t;
    setTree(t, k);
    estimatorConfig(t);
    t.setInt("estimator/groupId", k.calibrationGroup);
    if (fromTree) cal = boost::make_shared<CameraCalibrator>(t);
    else {
      CameraCalibrator::Options o;
      o.rows = k.rows; o.cols = k.cols; o.rowSpacingMeters = k.rowSpacing; o.colSpacingMeters = k.colSpacing; o.cameraProjectionType = k.omni ? "omni" : "pinhole";
      o.filterCornerOutliers = true; o.filterCornerSigmaThreshold = 2.5; o.filterCornerMinReprojError = 0.25;
      o.estimateLandmarks = k.landmarks; o.landmarksGroupId = k.landmarkGroup; o.calibrationGroupId = k.calibrationGroup; o.transformationsGroupId = k.transformationGroup;
      o.batchNumImages = k.batch; o.useMEstimator = k.mEstimator; o.sigma2 = k.sigma2; o.verbose = k.verbose;
      cal = boost::make_shared<CameraCalibrator>(boost::make_shared<IncrementalEstimator>(sm::PropertyTree(t, "estimator")), o);
    }
    const Detector* d = Detector::last();
    MC_REQUIRE(d, "no detector");
    geometry = d->geometry;
    MC_REQUIRE(geometry->model == (k.omni ? "omni" : "pinhole"), "the camera is " << geometry->model);
    MC_REQUIRE((int)d->target->rows == k.rows && (int)d->target->cols == k.cols && d->target->rowSpacing == k.rowSpacing && d->target->colSpacing == k.colSpacing, "the target is not the configured one");
  }
  V2 error(const Kept& o, size_t corner) const {
    const Transformation T(static_cast<RotationQuaternion*>(o.q)->getQuaternion(), static_cast<EuclideanPoint*>(o.t)->toEuclidean());
    const Eigen::Vector4d p = landmarks[corner]->toHomogeneous();
    return o.im.scene->corners.at(corner) - geometry->project(T.inverse() * V3(p.head<3>() / p(3)));
  }
  // what the estimator is given
  void checkBatch(mc::Chooser& c, IncrementalOptimizationProblem& all) {
    c.check();
    OptimizationProblem& b = *all.getOptimizationProblem(all.getNumOptimizationProblems() - 1);
    MC_REQUIRE(b.getNumGroups() == 3, b.getNumGroups() << " groups in the batch");
    // the corners of the target
    auto& l = b.getDesignVariablesGroup(k.landmarkGroup);
    MC_REQUIRE(l.size() == board.size(), l.size() << " landmarks instead of " << board.size());
    std::vector<HomogeneousPoint*> now;
    for (size_t i = 0; i < l.size(); ++i) {
      auto* h = dynamic_cast<HomogeneousPoint*>(l[i].get());
      MC_REQUIRE(h && h->isActive() == k.landmarks, "landmark " << i << " is no landmark, or estimated although it is not to be, or the reverse");
      if (landmarks.empty()) MC_REQUIRE(near(h->toHomogeneous(), (Vec(4) << board.point(i), 1).finished(), 1e-12) || !k.landmarks, "landmark " << i << " starts elsewhere");
      now.push_back(h);
    }
    MC_REQUIRE(landmarks.empty() || landmarks == now, "the landmarks are others than in the batch before");
    landmarks = now;
    // the camera
    std::vector<DV*> in;
    for (auto& v : b.getDesignVariablesGroup(k.calibrationGroup)) { in.push_back(v.get()); MC_REQUIRE(v->isActive(), "the camera is not estimated"); }
    MC_REQUIRE(in.size() == 2, in.size() << " variables of the camera");
    for (int i = 0; i < 2; ++i) {
      auto* v = dynamic_cast<aslam::backend::VerifIntrinsics*>(in[i]);
      MC_REQUIRE(v && v->g == geometry && v->projection == (i == 0), "projection, then distortion, of the camera that sees the images");
    }
    MC_REQUIRE(intrinsics.empty() || intrinsics == in, "the camera is another than in the batch before");
    intrinsics = in;
    // the poses
    auto& poses = b.getDesignVariablesGroup(k.transformationGroup);
    MC_REQUIRE(poses.size() == 2 * waiting.size(), poses.size() << " variables for the poses of " << waiting.size() << " images");
    last.clear();
    for (auto& w : waiting) {
      Kept o{w.first, nullptr, nullptr};
      for (auto& v : poses) {
        MC_REQUIRE(v->isActive(), "a pose is not estimated");
        if (auto* q = dynamic_cast<RotationQuaternion*>(v.get())) { if (near(q->toRotationMatrix(), w.first.scene->T_t_c.C(), 1e-9)) o.q = q; }
        else if (auto* t = dynamic_cast<EuclideanPoint*>(v.get())) { if (near(t->toEuclidean(), w.first.scene->T_t_c.t(), 1e-9)) o.t = t; }
      }
      MC_REQUIRE(o.q && o.t, "no variable starts at the pose of image " << w.first.index);
      last.push_back(o);
    }
    // the corners seen
    std::set<size_t> taken;
    std::vector<std::pair<aslam::ReprojectionError*, std::pair<size_t, size_t>>> terms;
    for (size_t n = 0; n < last.size(); ++n) for (auto& corner : last[n].im.scene->corners) {
      size_t j = 0;
      for (; j < b.numErrorTerms(); ++j) {
        auto* e = dynamic_cast<aslam::ReprojectionError*>(b.errorTerm(j));
        MC_REQUIRE(e, "an error term is no reprojection error");
        if (!taken.count(j) && near(e->y, corner.second, 1e-12)) break;
      }
      MC_REQUIRE(j < b.numErrorTerms(), "corner " << corner.first << " of image " << last[n].im.index << " has no error term");
      taken.insert(j);
      auto* e = static_cast<aslam::ReprojectionError*>(b.errorTerm(j));
      MC_REQUIRE(near(e->R, k.sigma2 * Eigen::Matrix2d::Identity(), 1e-12), "uncertainty of a corner: " << show(e->R));
      MC_REQUIRE(e->container->camera() == geometry && !e->container->shutter(), "a corner is seen by another camera");
      MC_REQUIRE(!!e->verifPolicy() == k.mEstimator, "M-estimator of a corner");
      std::set<DV*> want{last[n].q, last[n].t, landmarks[corner.first], in[0], in[1]}, got(e->designVariables().begin(), e->designVariables().end());
      MC_REQUIRE(want == got, "corner " << corner.first << " of image " << last[n].im.index << " depends on other variables");
      terms.push_back({e, {n, corner.first}});
    }
    MC_REQUIRE(taken.size() == b.numErrorTerms(), b.numErrorTerms() << " error terms for " << taken.size() << " corners");
    auto compare = [&](const char* when) {
      for (auto& t : terms) {
        t.first->evaluateError();
        const V2 want = error(last[t.second.first], t.second.second);
        MC_REQUIRE(near(t.first->error(), want, 1e-9), "reprojection error" << when << ": " << show(t.first->error()) << " instead of " << show(want));
      }
    };
    compare("");
    if (terms.empty()) return;
    for (DV* v : {last[0].q, last[0].t, (DV*)landmarks[terms[0].second.second], in[0], in[1]}) {
      const Vec u = Vec::Constant(v->minimalDimensions(), 3e-3);
      v->update(u.data(), (int)u.size());
      compare(" after a change");
      v->revertUpdate();
    }
  }
  template <class F> void request(mc::Chooser& c, bool hands, const F& f) {
    bool seen = false;
    env.seen = nullptr;
    if (hands) {
      env.accept = c.flip();
      env.seen = [this, &c, &seen](IncrementalOptimizationProblem& all) { seen = true; checkBatch(c, all); };
    }
    const int before = env.optimisations;
    f();
    env.seen = nullptr;
    MC_REQUIRE(env.optimisations - before == (hands ? 1 : 0), env.optimisations - before << " batches are handed to the estimator instead of " << (hands ? 1 : 0));
    if (!hands) return;
    MC_REQUIRE(seen, "the estimator never saw the batch");
    const bool keep = env.accept || accepted == 0;
    if (keep) { env.log = env.next(); ++accepted; for (auto& o : last) kept.push_back(o); }
    waiting.clear();
    MC_REQUIRE((int)cal->getEstimator()->getNumBatches() == accepted, "the estimator keeps " << cal->getEstimator()->getNumBatches() << " batches instead of " << accepted);
  }
  void init(bool good) {
    Image im = imageOf(0, board, *geometry, 0);
    im.scene->good = good;
    const bool before = ready;
    if (good) ready = true;
    MC_REQUIRE(cal->initGeometry(im.m) == (before || good), "initGeometry() reports otherwise");
  }
  void add(mc::Chooser& c, int index, int mask, Time t) {
    Image im = imageOf(index, board, *geometry, mask < 0 ? 0 : mask);
    im.scene->found = mask >= 0;
    if (!ready) {
      try { cal->addImage(im.m, t); } catch (const InvalidOperationException&) { return; }
      MC_FAIL("an image is taken before the camera has somewhere to start from");
    }
    if (mask >= 0) { waiting.push_back({im, t}); lastImage = index; }
    bool got = false;
    request(c, mask >= 0 && (int)waiting.size() == k.batch, [&] { got = cal->addImage(im.m, t); });
    MC_REQUIRE(got == (mask >= 0), "addImage() reports otherwise");
  }
  void process(mc::Chooser& c) { request(c, !waiting.empty(), [&] { cal->processBatch(); }); }

  void observe(mc::Chooser& c, bool file) {
    c.check();
    CameraCalibrator& x = *cal;
    MC_REQUIRE(x.getBatchNumImages() == waiting.size(), x.getBatchNumImages() << " images are waiting instead of " << waiting.size());
    MC_REQUIRE(x.getBatchObservations().size() == waiting.size(), x.getBatchObservations().size() << " observations are waiting instead of " << waiting.size());
    for (size_t i = 0; i < waiting.size(); ++i) {
      const CameraCalibrator::Observation& o = *x.getBatchObservations()[i];
      MC_REQUIRE(o.image().scene == waiting[i].first.scene && std::fabs(o.time().toSec() - waiting[i].second / 1e9) < 1e-9, "observation " << i << " that waits is another");
    }
    // an observation of the estimator and its pose belong together
    MC_REQUIRE(x.getEstimatorObservations().size() == kept.size(), x.getEstimatorObservations().size() << " observations of the estimator instead of " << kept.size());
    std::set<const verif::Scene*> seen;
    for (size_t i = 0; i < kept.size(); ++i) {
      const verif::Scene* s = static_cast<const CameraCalibrator::Observation&>(*x.getEstimatorObservations()[i]).image().scene.get();
      MC_REQUIRE(seen.insert(s).second, "an observation is twice with the estimator");
      const Kept* o = nullptr;
      for (auto& y : kept) if (y.im.scene.get() == s) o = &y;
      MC_REQUIRE(o, "observation " << i << " of the estimator is of no accepted batch");
      const Transformation want(static_cast<RotationQuaternion*>(o->q)->getQuaternion(), static_cast<EuclideanPoint*>(o->t)->toEuclidean());
      MC_REQUIRE(near(x.getTransformation(i), want.T(), 1e-12), "observation " << i << " is of image " << o->im.index << ", its transformation is another image's");
    }
    for (size_t i : {kept.size(), kept.size() + 1}) {
      bool thrown = false;
      try { x.getTransformation(i); } catch (const OutOfBoundException<size_t>&) { thrown = true; }
      MC_REQUIRE(thrown, "transformation " << i << " of " << kept.size());
    }
    cv::Mat m;
    x.getLastCheckerboardImage(m);
    MC_REQUIRE(lastImage < 0 ? !m.scene : m.scene && near(m.scene->T_t_c.T(), poseAt(lastImage).T()), "the last image with a target is another");
    // parameters and their uncertainty
    MC_REQUIRE(near(x.getProjection(), geometry->proj, 1e-15) && near(x.getDistortion(), geometry->dist, 1e-15), "parameters of the camera");
    const int p = (int)geometry->proj.size();
    Vec vp = Vec::Zero(0), vd = Vec::Zero(0);
    if (accepted) { const Vec v = Vec::LinSpaced(p + 4, env.log + 1, env.log + p + 4); vp = v.head(p); vd = v.tail(4); }
    MC_REQUIRE(near(x.getProjectionVariance(), vp) && near(x.getDistortionVariance(), vd), "variance of the parameters: " << show(x.getProjectionVariance()) << " " << show(x.getDistortionVariance()));
    MC_REQUIRE(near(x.getProjectionStandardDeviation(), vp.cwiseSqrt()) && near(x.getDistortionStandardDeviation(), vd.cwiseSqrt()), "standard deviation of the parameters");
    // errors
    std::vector<V2> errs, want;
    std::vector<double> md2, want2;
    x.getErrors(errs, md2);
    for (auto& o : kept) for (auto& corner : o.im.scene->corners) { want.push_back(error(o, corner.first)); want2.push_back(want.back().squaredNorm() / k.sigma2); }
    MC_REQUIRE(errs.size() == want.size() && md2.size() == want.size(), errs.size() << " reprojection errors instead of " << want.size());
    std::vector<bool> taken(want.size(), false);
    for (size_t i = 0; i < want.size(); ++i) {
      size_t j = 0;
      while (j < errs.size() && (taken[j] || !near(errs[j], want[i], 1e-9))) ++j;
      MC_REQUIRE(j < errs.size(), "a reprojection error of " << show(want[i]) << " is missing");
      MC_REQUIRE(near(Vec::Constant(1, md2[j]), Vec::Constant(1, want2[i])), "weighted reprojection error " << md2[j] << " instead of " << want2[i]);
      taken[j] = true;
    }
    const Stats s(want);
    Vec mean = Vec::Zero(7), variance = mean, sd = mean;
    double mx = -1, my = -1; size_t out = 99;
    x.getStatistics(mean, variance, sd, mx, my, out);
    if (want.empty()) MC_REQUIRE(mean.size() == 0 && variance.size() == 0 && sd.size() == 0 && mx == 0 && my == 0 && out == 0, "statistics of nothing");
    if (s.clear) {
      MC_REQUIRE(near(mean, s.mean) && near(variance, s.variance, 1e-5) && near(sd, s.variance.cwiseSqrt(), 1e-5), "mean " << show(mean) << ", variance " << show(variance) << ", standard deviation " << show(sd) << " instead of " << show(s.mean) << ", " << show(s.variance));
      MC_REQUIRE(near(V2(mx, my), s.max), "largest errors " << mx << " " << my << " instead of " << show(s.max));
      MC_REQUIRE(out == outliers(want2, 0.975), out << " outliers instead of " << outliers(want2, 0.975));
    }
    if (file) checkFile(vp, vd);
  }
  void checkFile(const Vec& vp, const Vec& vd) {
    sm::PropertyTree t;
    cal->write(t);
    static const char* names[] = {"xi", "fu", "fv", "cu", "cv"};
    const int o = k.omni ? 0 : 1;
    for (int i = 0; i < geometry->proj.size(); ++i) {
      const std::string n = names[i + o];
      MC_REQUIRE(t.getDouble("projection/" + n) == geometry->proj(i), "file: " << n);
      if (vp.size()) MC_REQUIRE(t.getDouble("projection/sigma_" + n) == std::sqrt(vp(i)), "file: standard deviation of " << n);
      else MC_REQUIRE(!t.doesKeyExist("projection/sigma_" + n), "file: standard deviation of " << n << " without an estimate");
    }
    static const char* dn[] = {"k1", "k2", "p1", "p2"};
    for (int i = 0; i < 4; ++i) {
      MC_REQUIRE(t.getDouble(std::string("projection/distortion/") + dn[i]) == geometry->dist(i), "file: " << dn[i]);
      if (vd.size()) MC_REQUIRE(t.getDouble(std::string("projection/distortion/sigma_") + dn[i]) == std::sqrt(vd(i)), "file: standard deviation of " << dn[i]);
      else MC_REQUIRE(!t.doesKeyExist(std::string("projection/distortion/sigma_") + dn[i]), "file: standard deviation of " << dn[i] << " without an estimate");
    }
    MC_REQUIRE(t.getString("projection/type") == (k.omni ? "omni" : "pinhole") && t.getInt("projection/ru") == geometry->ru_ && t.getInt("projection/rv") == geometry->rv_, "file: type and size");
    // a validator starts from what the file says
    CameraValidator::Options vo;
    CameraValidator v(t, vo);
    const auto& g = *Detector::last()->geometry;
    MC_REQUIRE(g.model == geometry->model && g.proj == geometry->proj && g.dist == geometry->dist && g.ru_ == geometry->ru_ && g.rv_ == geometry->rv_, "a validator that reads the file has another camera");
    auto matrix = [&](const char* n, const Mat& m) {
      for (int col = 0; col < m.cols(); ++col) for (int r = 0; r < m.rows(); ++r) MC_REQUIRE(t.getDouble(std::string(n) + "/c" + std::to_string(col) + "/r" + std::to_string(r)) == m(r, col), "file: " << n);
      MC_REQUIRE(!t.doesKeyExist(std::string(n) + "/c" + std::to_string(m.cols()) + "/r0"), "file: more of " << n);
    };
    matrix("nobsBasis", cal->getEstimator()->getNobsBasis()); matrix("nobsBasisScaled", cal->getEstimator()->getNobsBasis(true));
    const Vec sv = cal->getEstimator()->getSingularValues();
    for (int i = 0; i < sv.size(); ++i) MC_REQUIRE(t.getDouble("singularValues/x" + std::to_string(i)) == sv(i), "file: singular values");
    MC_REQUIRE(t.getDouble("infoGainDelta") == 0.5 && t.getDouble("epsSVD") == cal->getEstimator()->getLinearSolverOptions().epsSVD, "file: options");
  }
};

void histories(mc::Chooser& c) {
  Config k;
  k.batch = c.choose(3) + 1;
  World w(c, k, true);
  w.init(true);
  Time t = 10 * ms;
  int n = 0;
  const int depth = mc::config().thorough() ? 8 : 6;
  for (int i = 0; i < depth; ++i) {
    const int a = c.choose(5);
    c.step();
    t += 30 * ms;
    if (a < 4) { c.trace([&](std::ostream& o) { o << (a == 3 ? "an image without target" : a == 0 ? "an image of all corners" : a == 1 ? "an image of half the corners" : "an image of one corner"); }); w.add(c, n++, a == 3 ? -1 : a, t); }
    else { c.traceText("process"); w.process(c); }
    if (c.fresh()) w.observe(c, false);
  }
  c.outcome(std::to_string(w.kept.size()) + "/" + std::to_string(w.accepted));
}
mc::Register h1("K02", "camera-histories", histories, "batches of 1, 2 or 3 images; every history of 6 (thorough: 8) requests: an image of all, half or one of the corners, an image without target, process the batch; every batch kept or rejected", 16, 2);

void grid(mc::Chooser& c) {
  Config k;
  static const int sizes[][2] = {{2, 3}, {3, 2}, {1, 4}, {6, 7}};
  const int* s = sizes[c.choose(4)];
  k.rows = s[0]; k.cols = s[1];
  static const double sigmas[] = {1, 0.25, 4};
  k.sigma2 = sigmas[c.choose(3)];
  k.omni = c.flip(); k.landmarks = c.flip(); k.mEstimator = c.flip(); k.verbose = c.flip();
  static const int groups[][3] = {{2, 0, 1}, {0, 2, 1}, {5, 3, 7}};
  const int* g = groups[c.choose(3)];
  k.landmarkGroup = g[0]; k.calibrationGroup = g[1]; k.transformationGroup = g[2];
  k.batch = c.choose(2) + 1;
  Quiet quiet;
  World w(c, k, c.flip());
  // images before there is a camera to start from
  w.add(c, 0, 0, 5 * ms);
  w.init(false);
  w.add(c, 0, 0, 6 * ms);
  w.observe(c, true);
  w.init(true); w.init(false);
  static const int masks[] = {0, 3, 1, 0};
  for (int i = 0; i < 4; ++i) { w.add(c, i, masks[i], (10 + i) * ms); c.step(); w.observe(c, true); }
  w.process(c);
  w.process(c);
  w.observe(c, true);
  c.outcome(std::to_string(w.kept.size()));
}
mc::Register h2("K02", "camera-grid", grid, "targets of 4 sizes x variances x pinhole or omnidirectional x landmarks estimated x M-estimator x verbose x groups x batches of 1 or 2 images x from options or a property tree; 4 images, every batch kept or rejected; the file is written after every image", 16, 4);

void options(mc::Chooser& c) {
  const bool calibrator = c.flip();
  // the key that is left out (the last: none)
  static const char* keys[] = {"rows", "cols", "rowSpacingMeters", "colSpacingMeters", "useAdaptiveThreshold", "normalizeImage", "filterQuads", "doSubpixelRefinement", "showExtractionVideo", "cameraProjectionType", "sigma2", "verbose", "plotCornerReprojection", "imageStepping", "filterCornerOutliers", "filterCornerSigmaThreshold", "filterCornerMinReprojError", "estimateLandmarks", "landmarksGroupId", "calibrationGroupId", "transformationsGroupId", "batchNumImages", "useMEstimator"};
  const int all = 23, required0 = 12, required1 = 16;
  const int without = c.choose(all + 1);
  const int flavour = c.choose(2);   // which of two values
  if (without >= required0 && without <= required1) return;   // have to be given
  sm::BoostPropertyTree t;
  estimatorConfig(t);
  std::map<std::string, std::string> given;
  for (int i = 0; i < all; ++i) if (i != without) {
    const std::string n = keys[i];
    std::string v;
    if (n == "cameraProjectionType") v = flavour ? "omni" : "pinhole";
    else if (n == "rows") v = "3"; else if (n == "cols") v = "4"; else if (n == "batchNumImages") v = "5";
    else if (n == "landmarksGroupId") v = "7"; else if (n == "calibrationGroupId") v = "8"; else if (n == "transformationsGroupId") v = "9";
    else if (n == "rowSpacingMeters") v = "0.5"; else if (n == "colSpacingMeters") v = "0.75"; else if (n == "sigma2") v = "2.25";
    else if (n == "filterCornerSigmaThreshold") v = "3.5"; else if (n == "filterCornerMinReprojError") v = "0.375";
    else v = (i + flavour) % 2 ? "true" : "false";
    t.setString(n, v); given[n] = v;
  }
  auto b = [&](const char* n, bool d) { return given.count(n) ? given[n] == "true" : d; };
  auto x = [&](const char* n, double d) { return given.count(n) ? std::atof(given[n].c_str()) : d; };
  auto str = [&](const char* n, const char* d) { return given.count(n) ? given[n] : std::string(d); };
  sm::PropertyTree in;
  { Config k; for (const char* n : {"xi", "fu", "fv", "cu", "cv", "distortion/k1", "distortion/k2", "distortion/p1", "distortion/p2"}) in.setDouble(std::string("projection/") + n, 1); in.setInt("projection/ru", 640); in.setInt("projection/rv", 480); in.setString("projection/type", "pinhole"); }
  Oracle env;
  boost::shared_ptr<CameraCalibrator> cal; boost::shared_ptr<CameraValidator> val;
  if (calibrator) cal = boost::make_shared<CameraCalibrator>(t); else val = boost::make_shared<CameraValidator>(in, t);
  c.check();
#define COMMON(o) \
  MC_REQUIRE(o.rows == x("rows", 6) && o.cols == x("cols", 7) && o.rowSpacingMeters == x("rowSpacingMeters", 0.06) && o.colSpacingMeters == x("colSpacingMeters", 0.06), "size of the target"); \
  MC_REQUIRE(o.useAdaptiveThreshold == b("useAdaptiveThreshold", true) && o.normalizeImage == b("normalizeImage", true) && o.filterQuads == b("filterQuads", false) && o.doSubpixelRefinement == b("doSubpixelRefinement", true) && o.showExtractionVideo == b("showExtractionVideo", false), "options of the target"); \
  MC_REQUIRE(o.plotCornerReprojection == b("plotCornerReprojection", false) && o.imageStepping == b("imageStepping", false) && o.filterCornerOutliers == b("filterCornerOutliers", false) && o.filterCornerSigmaThreshold == (float)x("filterCornerSigmaThreshold", 2) && o.filterCornerMinReprojError == (float)x("filterCornerMinReprojError", 0.2), "options of the detector"); \
  MC_REQUIRE(o.cameraProjectionType == str("cameraProjectionType", "pinhole") && o.sigma2 == x("sigma2", 1) && o.verbose == b("verbose", false), "type, variance, verbosity");
  if (cal) {
    const CameraCalibrator::Options& o = const_cast<const CameraCalibrator&>(*cal).getOptions();
    COMMON(o)
    MC_REQUIRE(o.estimateLandmarks == b("estimateLandmarks", false) && o.landmarksGroupId == x("landmarksGroupId", 2) && o.calibrationGroupId == x("calibrationGroupId", 0) && o.transformationsGroupId == x("transformationsGroupId", 1) && o.batchNumImages == x("batchNumImages", 1) && o.useMEstimator == b("useMEstimator", false), "groups, images in a batch, what is estimated");
    MC_REQUIRE(Detector::last()->geometry->model == str("cameraProjectionType", "pinhole"), "model of the camera");
  } else {
    const CameraValidator::Options& o = const_cast<const CameraValidator&>(*val).getOptions();
    COMMON(o)
    MC_REQUIRE(Detector::last()->geometry->model == "pinhole", "model of the camera");
  }
  const Detector& d = *Detector::last();
  MC_REQUIRE(d.target->rows == x("rows", 6) && d.target->cols == x("cols", 7) && d.target->rowSpacing == x("rowSpacingMeters", 0.06) && d.target->colSpacing == x("colSpacingMeters", 0.06), "the detector's target");
  auto& to = d.target->options;
  MC_REQUIRE(to.useAdaptiveThreshold == b("useAdaptiveThreshold", true) && to.normalizeImage == b("normalizeImage", true) && to.filterQuads == b("filterQuads", false) && to.doSubpixelRefinement == b("doSubpixelRefinement", true) && to.showExtractionVideo == b("showExtractionVideo", false), "the target is not given its options");
  MC_REQUIRE(d.options.plotCornerReprojection == b("plotCornerReprojection", false) && d.options.imageStepping == b("imageStepping", false) && d.options.filterCornerOutliers == b("filterCornerOutliers", false) && d.options.filterCornerSigmaThreshold == (float)x("filterCornerSigmaThreshold", 2) && d.options.filterCornerMinReprojError == (float)x("filterCornerMinReprojError", 0.2), "the detector is not given its options");
  // an unknown type of camera
  bool thrown = false;
  try {
    if (cal) { t.setString("cameraProjectionType", "fisheye"); CameraCalibrator y(t); }
    else { in.setString("projection/type", "fisheye"); CameraValidator y(in, t); }
  } catch (const BadArgumentException<std::string>&) { thrown = true; }
  MC_REQUIRE(thrown, "an unknown type of camera is taken");
  c.outcome(calibrator ? "calibrator" : "validator");
}
mc::Register h3("K02", "camera-options", options, "calibrator and validator from a configuration: every option that may be left out, left out alone or not, with two sets of values; unknown types of camera", 8, 2);

void validator(mc::Chooser& c) {
  Config k;
  k.omni = c.flip();
  static const double sigmas[] = {1, 0.25, 4};
  k.sigma2 = sigmas[c.choose(3)];
  const bool fromTree = c.flip();
  k.verbose = c.flip();
  Quiet quiet;
  Oracle env;
  sm::BoostPropertyTree in, t;
  boost::shared_ptr<aslam::cameras::CameraGeometryBase> g;
  if (k.omni) g = boost::make_shared<aslam::cameras::DistortedOmniCameraGeometry>(); else g = boost::make_shared<aslam::cameras::DistortedPinholeCameraGeometry>();
  int at = 0;
  if (k.omni) in.setDouble("projection/xi", g->proj(at++));
  for (const char* n : {"fu", "fv", "cu", "cv"}) in.setDouble(std::string("projection/") + n, g->proj(at++));
  at = 0;
  for (const char* n : {"k1", "k2", "p1", "p2"}) in.setDouble(std::string("projection/distortion/") + n, g->dist(at++));
  in.setInt("projection/ru", g->ru_); in.setInt("projection/rv", g->rv_); in.setString("projection/type", g->model);
  setTree(t, k);
  CameraValidator::Options o;
  o.rows = k.rows; o.cols = k.cols; o.rowSpacingMeters = k.rowSpacing; o.colSpacingMeters = k.colSpacing; o.sigma2 = k.sigma2; o.verbose = k.verbose;
  boost::shared_ptr<CameraValidator> v = fromTree ? boost::make_shared<CameraValidator>(in, t) : boost::make_shared<CameraValidator>(in, o);
  const Board board{k.rows, k.cols, k.rowSpacing, k.colSpacing};
  std::vector<V2> errs; std::vector<double> md2;
  std::vector<Image> images;
  const int depth = mc::config().thorough() ? 4 : 3;
  for (int n = 0; n < depth; ++n) {
    const int a = c.choose(7);   // 0..4 corners seen, 5 no target, 6 some of the target behind the camera
    c.step();
    c.trace([&](std::ostream& s) { s << "image " << a; });
    Image im = imageOf(n, board, *g, a > 4 ? 0 : a);
    im.scene->found = a != 5;
    // the plane of the camera goes through the target
    if (a == 6) im.scene->T_t_c = Transformation(sm::kinematics::r2quat(rotation(V3(0, -M_PI / 2, 0))), V3(0.03, 0.05, -0.1));
    bool got = v->addImage(im.m, (100 + n) * ms);
    MC_REQUIRE(got == (a != 5), "addImage() reports otherwise");
    std::vector<V2> here, there;
    std::vector<V2> errHere;
    if (a != 5) {
      images.push_back(im);
      const Transformation T = im.scene->T_t_c.inverse();
      for (auto& corner : im.scene->corners) {
        const V3 p = T * board.point(corner.first);
        if (p(2) <= 0) continue;
        here.push_back(corner.second); there.push_back(g->project(p));
        errHere.push_back(there.back() - here.back());
        errs.push_back(errHere.back()); md2.push_back(errs.back().squaredNorm() / k.sigma2);
      }
      c.note(std::to_string(here.size()));
    }
    c.check();
    MC_REQUIRE(v->getObservations().size() == images.size(), v->getObservations().size() << " observations instead of " << images.size());
    for (size_t i = 0; i < images.size(); ++i) MC_REQUIRE(static_cast<const CameraValidator::Observation&>(*v->getObservations()[i]).image().scene == images[i].scene, "an observation is another");
    MC_REQUIRE(v->getErrors().size() == errs.size() && v->getMahalanobisDistances().size() == errs.size(), v->getErrors().size() << " errors instead of " << errs.size());
    for (size_t i = 0; i < errs.size(); ++i) MC_REQUIRE(near(v->getErrors()[i], errs[i], 1e-9) && near(Vec::Constant(1, v->getMahalanobisDistances()[i]), Vec::Constant(1, md2[i])), "error " << i << ": " << show(v->getErrors()[i]) << " " << v->getMahalanobisDistances()[i] << " instead of " << show(errs[i]) << " " << md2[i]);
    const Stats s(errs);
    MC_REQUIRE(near(V2(v->getReprojectionErrorMaxXError(), v->getReprojectionErrorMaxYError()), s.max), "largest errors");
    if (errs.empty()) MC_REQUIRE(v->getReprojectionErrorMean().size() == 0 && v->getReprojectionErrorVariance().size() == 0 && v->getReprojectionErrorStandardDeviation().size() == 0, "statistics of nothing");
    if (s.clear) MC_REQUIRE(near(v->getReprojectionErrorMean(), s.mean) && near(v->getReprojectionErrorVariance(), s.variance, 1e-5) && near(v->getReprojectionErrorStandardDeviation(), s.variance.cwiseSqrt(), 1e-5), "mean and variance of the errors");
    MC_REQUIRE(v->getNumOutliers() == outliers(md2, 0.975), v->getNumOutliers() << " outliers instead of " << outliers(md2, 0.975));
    for (double p : {0.5, 0.9, 0.99}) MC_REQUIRE(v->getNumOutliers(p) == outliers(md2, p), v->getNumOutliers(p) << " outliers at " << p << " instead of " << outliers(md2, p));
    // the picture
    cv::Mat m;
    v->getLastImage(m);
    MC_REQUIRE(images.empty() ? m.empty() : m.scene == images.back().scene && m.rows == 480 && m.cols == 640, "the picture is of another image");
    if (a == 5) continue;
    std::multiset<std::pair<int, int>> green, red, wantGreen, wantRed;
    std::string text;
    for (auto& q : m.marks) {
      if (q.what == 'c' && q.g == 255) green.insert({(int)q.x, (int)q.y});
      if (q.what == 'c' && q.red == 255) red.insert({(int)q.x, (int)q.y});
      text += q.text + "\n";
    }
    for (size_t i = 0; i < here.size(); ++i) { wantGreen.insert({cvRound(here[i](0)), cvRound(here[i](1))}); wantRed.insert({cvRound(there[i](0)), cvRound(there[i](1))}); }
    MC_REQUIRE(green == wantGreen, "the corners seen are drawn elsewhere");
    MC_REQUIRE(red == wantRed, "the corners predicted are drawn elsewhere");
    double sum = 0, max = 0;
    for (auto& e : errHere) { sum += e.norm(); max = std::max(max, e.norm()); }
    if (!errHere.empty()) {
      std::ostringstream want; want << "avg = " << sum / errHere.size() << "   max = " << max;
      std::vector<double> here2; for (auto& e : errHere) here2.push_back(e.squaredNorm() / k.sigma2);
      const Stats sh(errHere);
      std::ostringstream more; more << "max = [" << sh.max(0) << " " << sh.max(1) << "]   outliers = " << outliers(here2, 0.975);
      MC_REQUIRE(text.find(more.str()) != std::string::npos, "the picture says " << text << " instead of " << more.str());
      MC_REQUIRE(text.find(want.str()) != std::string::npos, "the picture says " << text << " instead of " << want.str());
    }
  }
  c.outcome(std::to_string(errs.size()));
}
mc::Register h4("K02", "camera-validator", validator, "pinhole or omnidirectional x variances x from options or a property tree x verbose x every sequence of 3 (thorough: 4) images: all, half, one, every other, none of the corners, no target, part of the target behind the camera", 16, 4);

void shippedCamera(mc::Chooser& c) {
  const int what = c.choose(2);
  c.step();
  sm::BoostPropertyTree t;
  shipped("incremental_calibration_examples/incremental_calibration_examples_camera/conf/config.xml", t);
  Oracle env;
  c.check();
  if (what == 0) {
    CameraCalibrator x(sm::PropertyTree(t, "camera/calibrator"));
    MC_REQUIRE(x.getOptions().rows == 6 && x.getOptions().cols == 7 && x.getOptions().batchNumImages > 0, "the calibrator is not as shipped");
  } else {
    sm::PropertyTree in;
    for (const char* n : {"xi", "fu", "fv", "cu", "cv", "distortion/k1", "distortion/k2", "distortion/p1", "distortion/p2"}) in.setDouble(std::string("projection/") + n, 1);
    in.setInt("projection/ru", 640); in.setInt("projection/rv", 480); in.setString("projection/type", t.getString("camera/calibrator/cameraProjectionType"));
    CameraValidator x(in, sm::PropertyTree(t, "camera/calibrator"));
    MC_REQUIRE(x.getOptions().rows == 6 && x.getOptions().cols == 7, "the validator is not as shipped");
  }
  c.outcome(what ? "validator" : "calibrator");
}
mc::Register h5("K02", "camera-shipped", shippedCamera, "calibrator and validator from the configuration that is shipped", 1, 1);
}  // namespace
MC_MAIN
