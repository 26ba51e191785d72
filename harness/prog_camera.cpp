// D03: the programs of the camera against a model of what a recording shows.
#include <programs/prog_common.hpp>
#include <programs/camera_recorder.hpp>
#include <camera_scenes.hpp>
#include <sensor_msgs/Image.h>
#include <verif_ros.hpp>
#include <aslam/calibration/exceptions/InvalidOperationException.h>

int camera_calibrate_main(int, char**);
int camera_validate_main(int, char**);
using namespace prog;
using namespace scenes;
namespace {
typedef recorder::Camera Camera;
typedef recorder::Validator Checker;
typedef aslam::cameras::GridDetector Detector;

struct Setup {
  bool omni = false, save = false, errors = false, verbose = false, show = false, store = false;
  int batch = 1;
};
// an image, or a message of another topic
struct Item { int kind; Time stamp, arrived; Image im; };
enum { kFull, kHalf, kUnfit, kNone, kOther };

void configure(const Setup& k) {
  auto& t = config("conf");
  auto put = [&](const std::string& n, const std::string& v) { t["camera/" + n] = v; };
  auto flag = [&](const std::string& n, bool v) { put(n, v ? "true" : "false"); };
  const std::string c = "calibrator/";
  put("rosTopic", "/cam"); put("cameraId", "cam-7"); put("imageTime", "1");
  put(c + "rows", "2"); put(c + "cols", "3"); put(c + "rowSpacingMeters", "0.06"); put(c + "colSpacingMeters", "0.05");
  flag(c + "plotCornerReprojection", false); flag(c + "imageStepping", false); flag(c + "filterCornerOutliers", true); put(c + "filterCornerSigmaThreshold", "2.5"); put(c + "filterCornerMinReprojError", "0.25");
  put(c + "cameraProjectionType", k.omni ? "omni" : "pinhole"); flag(c + "estimateLandmarks", false); put(c + "landmarksGroupId", "2"); put(c + "calibrationGroupId", "0"); put(c + "transformationsGroupId", "1");
  put(c + "batchNumImages", std::to_string(k.batch)); flag(c + "useMEstimator", false); put(c + "sigma2", "0.25"); flag(c + "verbose", k.verbose);
  put(c + "estimator/groupId", "0"); put(c + "estimator/infoGainDelta", "0.5"); flag(c + "estimator/checkValidity", false); flag(c + "estimator/verbose", false);
  flag(c + "saveEstimatorImages", k.save); flag(c + "outputErrors", k.errors);
  flag("validator/visualization", k.show); flag("validator/saveImages", k.store); flag("validator/outputErrors", k.errors);
}
const Board kBoard{2, 3, 0.06, 0.05};

std::vector<Item> record(mc::Chooser& c, const std::vector<int>& kinds, bool omni) {
  boost::shared_ptr<aslam::cameras::CameraGeometryBase> g;
  if (omni) g = boost::make_shared<aslam::cameras::DistortedOmniCameraGeometry>(); else g = boost::make_shared<aslam::cameras::DistortedPinholeCameraGeometry>();
  std::vector<Item> r;
  auto& bag = verif::bags()["bag"];
  bag.clear();
  for (size_t i = 0; i < kinds.size(); ++i) {
    Item x{kinds[i], 1700000000000000000LL + 123456789LL * (Time)i, 1700000000000000000LL + 123456789LL * (Time)i + 5000000000LL, imageOf((int)i, kBoard, *g, kinds[i] == kHalf ? 1 : 0)};
    x.im.scene->found = x.kind <= kUnfit; x.im.scene->good = x.kind <= kHalf;
    sensor_msgs::Image m;
    m.header.stamp = ros::Time(x.stamp); m.header.seq = (uint32_t)i; m.verif = x.im.m;
    bag.push_back({x.kind == kOther ? "/other" : "/cam", ros::Time(x.arrived), m});
    r.push_back(x);
  }
  c.trace([&](std::ostream& o) { static const char* n[] = {"target", "half", "unfit", "nothing", "other"}; for (int k : kinds) o << n[k] << " "; });
  return r;
}

// the numbers behind a label
std::vector<double> said(const std::string& text, const std::string& label) {
  size_t at = text.rfind("\n" + label);
  if (at == std::string::npos) at = text.rfind("\r" + label);   // behind the progress
  MC_REQUIRE(at != std::string::npos, "the program says nothing of " << label);
  std::istringstream is(text.substr(at + 1 + label.size(), text.find('\n', at + 1) - at - 1 - label.size()));
  std::vector<double> v;
  for (double x; is >> x;) v.push_back(x);
  return v;
}
void says(const std::string& text, const std::string& label, const Vec& want) {
  const std::vector<double> got = said(text, label);
  MC_REQUIRE(got.size() == (size_t)want.size(), label << " " << got.size() << " numbers instead of " << want.size());
  for (size_t i = 0; i < got.size(); ++i) MC_REQUIRE(std::fabs(got[i] - want(i)) <= 2e-6 + 1e-5 * std::fabs(want(i)), label << " " << show(got) << " instead of " << want.transpose());
}
Vec one(double x) { return Vec::Constant(1, x); }
Table pairs(const std::vector<V2>& e) { Table t; for (auto& x : e) t.push_back({x(0), x(1)}); return t; }
Table numbers(const std::vector<double>& e) { Table t; for (double x : e) t.push_back({x}); return t; }
void files(bool wanted, const std::vector<V2>& e, const std::vector<double>& e2) {
  if (wanted) { same("errors.txt", pairs(e)); same("errorsMd2.txt", numbers(e2)); }
  else MC_REQUIRE(!exists("errors.txt") && !exists("errorsMd2.txt"), "errors are written that nobody asked for");
}

typedef std::map<std::string, std::string> Saved;

// what a validator must make of the recording, with a camera
void validate(mc::Chooser& c, const Setup& k, const std::vector<Item>& items, const std::string& intrinsics, const Vec& proj, const Vec& dist) {
  Checker::given().clear(); cv::verifShown().clear(); cv::verifWritten().clear();
  std::string text;
  c.check();
  boost::shared_ptr<aslam::cameras::CameraGeometryBase> g;
  boost::shared_ptr<aslam::cameras::GridCalibrationTargetCheckerboard> target;
  recorder::Notes<CameraValidator>::atEnd() = [&](recorder::Notes<CameraValidator>&) { g = Detector::last()->geometry; target = Detector::last()->target; };
  struct Off { ~Off() { recorder::Notes<CameraValidator>::atEnd() = nullptr; } } off;
  const int rc = run(camera_validate_main, {"bag", "conf", intrinsics}, &text);
  MC_REQUIRE(rc == 0, "the validation ends with " << rc);
  MC_REQUIRE(g && target, "nothing is validated");
  MC_REQUIRE(g->proj.size() == proj.size() && near(g->proj, proj, 1e-12) && near(g->dist, dist, 1e-12), "the validation has another camera than " << intrinsics);
  MC_REQUIRE(target->rows == 2 && target->cols == 3, "the validation has another target");
  std::vector<V2> e; std::vector<double> e2;
  size_t at = 0, shown = 0, stored = 0;
  const verif::Scene* last = nullptr;
  for (auto& x : items) {
    if (x.kind == kOther) continue;
    const bool found = x.kind <= kUnfit;
    MC_REQUIRE(at < Checker::given().size() && Checker::given()[at].scene == x.im.scene.get() && Checker::given()[at].t == x.stamp && Checker::given()[at].found == found, "image " << at << " does not reach the validator, or not with its time");
    ++at;
    if (found) {
      last = x.im.scene.get();
      for (auto& y : x.im.scene->corners) {
        const V2 d = g->project(x.im.scene->T_t_c.inverse() * kBoard.point(y.first)) - y.second;
        e.push_back(d); e2.push_back(d.squaredNorm() / 0.25);
      }
    }
    if (!k.show) continue;
    if (last) {
      auto& s = cv::verifShown();
      if (found) MC_REQUIRE(shown < s.size() && s[shown].image.scene.get() == last, "image " << at << " is not shown");
      // of one without a target, nothing or the one before
      if (shown < s.size() && s[shown].image.scene.get() == last) { MC_REQUIRE(!s[shown].image.marks.empty(), "what is shown of image " << at << " has no marks"); ++shown; }
    }
    if (k.store && found) {
      auto& w = cv::verifWritten();
      const std::string name = "images/cam-7-" + std::to_string(x.stamp) + ".png";
      MC_REQUIRE(stored < w.size() && w[stored].name == name && w[stored].image.scene.get() == last && !w[stored].image.marks.empty(), "image " << at << " is not stored as " << name << (stored < w.size() ? ", but as " + w[stored].name : ""));
      ++stored;
    } else if (k.store) {
      auto& w = cv::verifWritten();
      const std::string name = "images/cam-7-" + std::to_string(x.stamp) + ".png";
      MC_REQUIRE(stored >= w.size() || w[stored].name != name, name << " is stored although that image shows no target: it " << (w[stored].image.empty() ? "is empty" : "shows another"));
    }
  }
  MC_REQUIRE(at == Checker::given().size(), Checker::given().size() << " images reach the validator instead of " << at);
  MC_REQUIRE(shown == cv::verifShown().size(), cv::verifShown().size() << " images are shown");
  if (k.show || !k.store) MC_REQUIRE(stored == cv::verifWritten().size(), cv::verifWritten().size() << " images are stored instead of " << stored);
  if (stored) MC_REQUIRE(exists("images"), "no directory for the images");
  files(k.errors, e, e2);
  const Stats s(e);
  says(text, "max x reprojection error: ", one(s.max(0))); says(text, "max y reprojection error: ", one(s.max(1)));
  // exactly on the quantile there is none
  says(text, "number of outliers: ", one((double)outliers(e2, 0.975)));
  if (s.clear) { says(text, "reprojection error mean: ", s.mean); says(text, "reprojection error standard deviation: ", s.variance.cwiseSqrt()); }
}

struct Verdicts : ProgramOracle {
  mc::Chooser& ch;
  bool free;
  int batches = 0;
  std::vector<bool> kept;
  std::function<void(IncrementalOptimizationProblem&)> again;
  Verdicts(mc::Chooser& c_, bool f) : ch(c_), free(f) {
    c = &c_;
    again = [this](IncrementalOptimizationProblem&) {
      if (batches && accept) log += 2;
      accept = !free || ch.flip();
      kept.push_back(accept || !batches);
      ++batches;
      seen = again;
    };
    seen = again;
  }
};

void calibrate(mc::Chooser& c, const Setup& k, const std::vector<Item>& items, bool free, bool andValidate) {
  configure(k);
  Verdicts env(c, free);
  Camera::given().clear(); Camera::started().clear(); Camera::processed() = 0; cv::verifWritten().clear(); cv::verifShown().clear();
  Saved written; Vec proj, dist, sproj, sdist, mean, variance, deviation; std::vector<V2> e; std::vector<double> e2; size_t used = 0, outl = 0; double mx = 0, my = 0, j0 = 0, j1 = 0;
  std::vector<const verif::Scene*> observed;
  bool ended = false;
  recorder::Notes<CameraCalibrator>::atEnd() = [&](recorder::Notes<CameraCalibrator>& x) {
    ended = true;
    proj = x.getProjection(); dist = x.getDistortion(); sproj = x.getProjectionStandardDeviation(); sdist = x.getDistortionStandardDeviation();
    used = x.getEstimatorObservations().size(); j0 = x.getInitialCost(); j1 = x.getFinalCost();
    for (auto& o : x.getEstimatorObservations()) observed.push_back(o->image().scene.get());
    x.getErrors(e, e2); x.getStatistics(mean, variance, deviation, mx, my, outl);
    sm::BoostPropertyTree t("intrinsics");
    x.write(t); t.saveXml("expected"); written = sm::BoostPropertyTree::files()["expected"]; sm::BoostPropertyTree::files().erase("expected");
  };
  struct Off { ~Off() { recorder::Notes<CameraCalibrator>::atEnd() = nullptr; } } off;
  // which files there are
  for (auto it = sm::BoostPropertyTree::files().begin(); it != sm::BoostPropertyTree::files().end();) if (it->first != "conf") it = sm::BoostPropertyTree::files().erase(it); else ++it;
  std::vector<const Item*> images, found;
  const Item* good = nullptr; size_t tried = 0;
  for (auto& x : items) {
    if (x.kind == kOther) continue;
    images.push_back(&x);
    if (!good) ++tried;
    if (!good && x.kind <= kHalf) good = &x;
    if (x.kind <= kUnfit) found.push_back(&x);
  }
  c.step(); c.check();
  std::string text;
  int rc = -1;
  bool refused = false;
  try { rc = run(camera_calibrate_main, {"bag", "conf"}, &text); }
  catch (const InvalidOperationException&) { refused = true; }
  if (images.size() && !good) {
    MC_REQUIRE(refused || rc != 0, "a calibration without any image to start from");
    MC_REQUIRE(sm::BoostPropertyTree::files().size() == 1, "a calibration is stored without any image to start from");
    c.outcome("refused");
    return;
  }
  MC_REQUIRE(!refused && rc == 0 && ended, "the calibration ends with " << rc);
  auto& st = Camera::started();
  MC_REQUIRE(st.size() == (good ? tried : 0), "the geometry is started from " << st.size() << " images instead of " << tried);
  for (size_t i = 0; i < st.size(); ++i) MC_REQUIRE(st[i].scene == images[i]->im.scene.get() && st[i].found == (i + 1 == st.size()), "the geometry is started from another image than number " << i);
  auto& got = Camera::given();
  MC_REQUIRE(got.size() == images.size(), got.size() << " images reach the calibrator instead of " << images.size());
  for (size_t i = 0; i < got.size(); ++i) MC_REQUIRE(got[i].scene == images[i]->im.scene.get() && got[i].t == images[i]->stamp && got[i].found == (images[i]->kind <= kUnfit), "image " << i << " reaches the calibrator as another, or with time " << got[i].t << " instead of " << images[i]->stamp);
  const size_t batches = (found.size() + k.batch - 1) / k.batch;
  MC_REQUIRE((size_t)env.batches == batches, env.batches << " batches of " << found.size() << " images with a target");
  std::vector<const Item*> kept; std::vector<const Item*> stored;
  for (size_t i = 0; i < found.size(); ++i) {
    if (!env.kept[i / k.batch]) continue;
    kept.push_back(found[i]);
    if ((i + 1) % k.batch == 0) stored.push_back(found[i]);
  }
  MC_REQUIRE(observed.size() == kept.size(), observed.size() << " images are kept instead of " << kept.size());
  for (size_t i = 0; i < kept.size(); ++i) MC_REQUIRE(observed[i] == kept[i]->im.scene.get(), "kept image " << i << " is another");
  auto& w = cv::verifWritten();
  // of a batch of several images, at least the one that completes it
  std::set<std::string> names;
  for (auto& x : w) {
    const Item* of = nullptr;
    for (auto* y : kept) if (x.name == "images/cam-7-" + std::to_string(y->stamp) + ".png") of = y;
    MC_REQUIRE(of && k.save, x.name << " is stored, but is no image that is kept");
    MC_REQUIRE(x.image.scene == of->im.scene, x.name << " shows another image");
    MC_REQUIRE(names.insert(x.name).second, x.name << " is stored twice");
  }
  if (k.save) for (auto* y : stored) MC_REQUIRE(names.count("images/cam-7-" + std::to_string(y->stamp) + ".png"), "the image kept at " << y->stamp << " is not stored");
  if (!w.empty()) MC_REQUIRE(exists("images"), "no directory for the images");
  // what is stored is the camera as it is at the end
  char date[64];
  const time_t begin = items.empty() || images.empty() ? 0 : (time_t)(images[0]->arrived / 1000000000);
  strftime(date, sizeof date, "%Y-%m-%d-%H-%M-%S", localtime(&begin));
  const std::string file = std::string("cam-7-") + (k.omni ? "omni-" : "pinhole-") + date + "-" + std::to_string(k.batch) + "-0.5.xml";
  MC_REQUIRE(sm::BoostPropertyTree::files().size() == 2 && sm::BoostPropertyTree::files().count(file), "the calibration is not stored in " << file << " but in " << sm::BoostPropertyTree::files().begin()->first);
  const Saved s = sm::BoostPropertyTree::files()[file];
  for (auto& x : written) MC_REQUIRE(s.count(x.first) && s.at(x.first) == x.second, file << " has " << (s.count(x.first) ? s.at(x.first) : "nothing") << " for " << x.first << " instead of " << x.second);
  MC_REQUIRE(s.size() == written.size(), file << " has more than the calibration");
  MC_REQUIRE(s.count("intrinsics/projection/fu") && std::strtod(s.at("intrinsics/projection/fu").c_str(), nullptr) == proj(k.omni ? 1 : 0), file << " has another focal length");
  files(k.errors, e, e2);
  says(text, "projection: ", proj); says(text, "distortion: ", dist); says(text, "projection standard deviation: ", sproj); says(text, "distortion standard deviation: ", sdist);
  says(text, "number of images for estimation: ", one((double)used)); says(text, "total number of images: ", one((double)images.size()));
  says(text, "reprojection error mean: ", mean); says(text, "reprojection error standard deviation: ", deviation);
  says(text, "max x reprojection error: ", one(mx)); says(text, "max y reprojection error: ", one(my)); says(text, "number of outliers: ", one((double)outl));
  says(text, "initial cost: ", one(j0)); says(text, "final cost: ", one(j1));
  c.outcome(std::to_string(found.size()) + "/" + std::to_string(kept.size()) + "/" + std::to_string(w.size()) + "/" + std::to_string(e.size()));
  if (andValidate) validate(c, k, items, file, proj, dist);
}

std::vector<int> kindsOf(mc::Chooser& c, int n) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(c.choose(5)); return v; }
std::string text(const std::vector<int>& v) { std::string s; for (int x : v) s += char('0' + x); return s; }

void calibrations(mc::Chooser& c) {
  Setup k;
  k.batch = 1 + c.choose(2); k.omni = c.flip(); k.save = true; k.errors = c.flip(); k.verbose = k.errors;
  const int n = c.choose(mc::config().thorough() ? 6 : 5);
  const auto kinds = kindsOf(c, n);
  c.note(text(kinds) + char('0' + k.batch) + char('0' + k.omni) + char('0' + k.errors));
  calibrate(c, k, record(c, kinds, k.omni), true, false);
}
mc::Register r1("D03", "calibrations", calibrations, "the calibration on every recording of up to 4 (thorough: 5) messages of five kinds; every batch kept or rejected; batches of one and two images; both cameras; errors written or not", 32, 5);

void validations(mc::Chooser& c) {
  Setup k;
  k.omni = c.flip(); k.errors = c.flip(); k.show = c.flip(); k.store = c.flip();
  const int n = c.choose(mc::config().thorough() ? 7 : 6);
  const auto kinds = kindsOf(c, n);
  c.note(text(kinds) + char('0' + k.omni) + char('0' + k.errors) + char('0' + k.show) + char('0' + k.store));
  configure(k);
  auto& t = config("camera.xml");
  static const char* names[] = {"xi", "fu", "fv", "cu", "cv"};
  const double p[] = {0.75, 512, 530, 320.5, 241.25}, d[] = {0.0125, -0.025, 0.003, -0.0045};
  auto put = [&](const std::string& key, double v) { std::ostringstream o; o.precision(17); o << v; t["intrinsics/projection/" + key] = o.str(); };
  Vec proj(k.omni ? 5 : 4), dist(4);
  for (int i = 0; i < 5; ++i) { if (i || k.omni) { put(names[i], p[i]); proj(i - (k.omni ? 0 : 1)) = p[i]; } }
  for (int i = 0; i < 4; ++i) { static const char* q[] = {"k1", "k2", "p1", "p2"}; put(std::string("distortion/") + q[i], d[i]); dist(i) = d[i]; }
  t["intrinsics/projection/type"] = k.omni ? "omni" : "pinhole";
  t["intrinsics/projection/ru"] = "640"; t["intrinsics/projection/rv"] = "480";
  const auto items = record(c, kinds, k.omni);
  c.step();
  validate(c, k, items, "camera.xml", proj, dist);
  c.outcome(std::to_string(cv::verifShown().size()) + "/" + std::to_string(cv::verifWritten().size()) + "/" + std::to_string(items.size()));
}
mc::Register r2("D03", "validations", validations, "the validation on every recording of up to 5 (thorough: 6) messages of five kinds; both cameras; errors, display and images wanted or not", 16, 4);

void chains(mc::Chooser& c) {
  Setup k;
  k.omni = c.flip(); k.batch = 1 + c.choose(4); k.save = c.flip(); k.errors = c.flip(); k.show = k.store = c.flip(); k.verbose = c.flip();
  const int period = 1 + c.choose(4), n = mc::config().thorough() ? 40 : 9;
  std::vector<int> kinds;
  const auto cycle = kindsOf(c, period);
  for (int i = 0; i < n; ++i) kinds.push_back(cycle[i % period]);
  c.note(text(cycle) + char('0' + k.omni) + char('0' + k.batch) + char('0' + k.save) + char('0' + k.errors) + char('0' + k.show) + char('0' + k.verbose));
  calibrate(c, k, record(c, kinds, k.omni), false, true);
}
mc::Register r3("D03", "chains", chains, "calibration and then validation with what it stored, on recordings of 9 (thorough: 40) messages: every period of up to four kinds; batches of one to four images", 32, 5);

void usage(mc::Chooser& c) {
  const bool cal = c.flip();
  const int n = c.choose(6);
  configure(Setup());
  record(c, {kFull}, false);
  Camera::given().clear(); Checker::given().clear();
  c.step(); c.check();
  std::vector<std::string> args{"bag", "conf", "nowhere", "x", "y"};
  args.resize(n, "y");
  int rc = 0; bool threw = false;
  ProgramOracle env; env.c = &c;
  if (n == (cal ? 2 : 3)) args[cal ? 0 : 2] = "nowhere";
  try { rc = run(cal ? camera_calibrate_main : camera_validate_main, args); } catch (const mc::Violation&) { throw; } catch (const std::exception&) { threw = true; }
  MC_REQUIRE(rc != 0 || threw, "no complaint about " << n << " arguments");
  MC_REQUIRE(Camera::given().empty() && Checker::given().empty(), "images are used without a recording or a camera");
  c.outcome(std::to_string(cal) + std::to_string(n));
}
mc::Register r4("D03", "usage", usage, "both programs with too few, too many and wrong arguments", 1, 1);
}  // namespace
MC_MAIN
