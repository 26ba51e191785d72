// K01: the calibrator of sensors that measure their own motion.
#include <print_common.hpp>
#include <calib_common.hpp>

#include <aslam/backend/EuclideanPoint.hpp>
#include <aslam/backend/FixedPointNumber.hpp>
#include <aslam/backend/GenericScalar.hpp>
#include <aslam/backend/RotationQuaternion.hpp>

#include <aslam/calibration/egomotion/algo/Calibrator.h>
#include <aslam/calibration/egomotion/algo/CalibratorOptions.h>
#include <aslam/calibration/egomotion/algo/OptimizationProblemSpline.h>
#include <aslam/calibration/egomotion/data/MotionMeasurement.h>
#include <aslam/calibration/egomotion/design-variables/DesignVariables.h>
#include <shipped.hpp>

using namespace calib;
typedef Eigen::Matrix4d M4;
namespace {
struct Open : Calibrator {
  explicit Open(const sm::PropertyTree& t) : Calibrator(t) {}
  using Calibrator::motionMeasurements_;
  using Calibrator::motionMeasurementsPred_;
  using Calibrator::motionMeasurementsPredErrors_;
  using Calibrator::motionMeasurementsPredErrors2_;
};
struct Config {
  double window = 0.05;
  int knots = 5, transOrder = 4, rotOrder = 3, reference = 2;
  bool transOrderGiven = true;
  double transLambda = 0.25, rotLambda = 0.5;
  Time bound = 3 * ms;
  Time delays[3] = {1 * ms, 7 * ms, -7 * ms};
  bool active[3][3] = {{false, false, false}, {true, true, true}, {true, false, true}};   // delay, translation, rotation
};
// the sensors' numbers, the reference being the first
const size_t kIds[] = {2, 0, 5};
struct Motion { Time t, duration; M4 T; Mat S; };

M4 transform(const V3& r, const M3& C) { M4 T = M4::Identity(); T.topRightCorner<3, 1>() = r; T.topLeftCorner<3, 3>() = C; return T; }
Motion motion(int i, Time t, Time duration) {
  static const double x[][6] = {{0.1, 0, 0, 0.1, 0, 0}, {0.2, -0.1, 0.05, 1.5, 0.2, -0.1}, {-0.3, 0.1, 0, -0.7, 0.1, 0.4}, {0, 0, 0, 0, 0, 0}, {0.1, 0.2, -0.3, 2.5, -0.3, 0.2}};
  const double* y = x[i % 5];
  Motion m{t, duration, transform(V3(y[0], y[1], y[2]), rotation(V3(y[3], y[4], y[5]))), Mat::Identity(6, 6)};
  m.S(0, 0) = 2 + i % 3; m.S(1, 4) = m.S(4, 1) = 0.25;
  return m;
}
// how far the transform is from the measured one
Vec difference(const M4& measured, const M4& T) {
  const M4 D = measured * T.inverse();
  const V3 w = rotationVector(D.topLeftCorner<3, 3>());
  Vec e(6); e << V3(D.topRightCorner<3, 1>()), w.norm() < 1e-12 ? V3(V3::Zero()) : V3(-2 * std::sin(w.norm() / 2) * w.normalized());
  return e;
}
struct Prediction { Time t; M4 T; Vec error; double cost; };

struct World {
  Config k;
  Oracle env;
  boost::shared_ptr<Open> cal;
  std::vector<Motion> waiting[3];
  Time start = -1, last = -1, previous[3] = {-1, -1, -1};
  std::vector<double> gains;
  std::vector<Vec> params[3];
  std::vector<Prediction> predictions[3];
  int accepted = 0;
  bool over = false;
  World(mc::Chooser& c, const Config& k) : k(k) {
    env.c = &c;
    sm::BoostPropertyTree t;
    estimatorConfig(t);
    t.setDouble("windowDuration", k.window); t.setBool("verbose", false); t.setInt("delayBound", (int)k.bound); t.setInt("referenceSensor", (int)kIds[0]);
    t.setDouble("splines/transSplineLambda", k.transLambda); t.setDouble("splines/rotSplineLambda", k.rotLambda);
    t.setInt("splines/splineKnotsPerSecond", k.knots); if (k.transOrderGiven) t.setInt("splines/transSplineOrder", k.transOrder);
    t.setInt("splines/rotSplineOrder", k.rotOrder);
    t.setInt("sensors/num", 3);
    for (int i = 0; i < 3; ++i) {
      const std::string s = "sensors/sensor_" + std::to_string(i) + "/";
      t.setInt(s + "idx", (int)kIds[i]);
      const V3 r = translation(i), a = attitude(i);
      t.setDouble(s + "extrinsics/translation/x", r(0)); t.setDouble(s + "extrinsics/translation/y", r(1)); t.setDouble(s + "extrinsics/translation/z", r(2));
      t.setDouble(s + "extrinsics/rotation/yaw", a(0)); t.setDouble(s + "extrinsics/rotation/pitch", a(1)); t.setDouble(s + "extrinsics/rotation/roll", a(2));
      t.setBool(s + "extrinsics/translation/active", k.active[i][1]); t.setBool(s + "extrinsics/rotation/active", k.active[i][2]);
      t.setInt(s + "intrinsics/timeDelay", (int)k.delays[i]); t.setBool(s + "intrinsics/timeDelayActive", k.active[i][0]);
    }
    cal = boost::make_shared<Open>(t);
    for (int i = 0; i < 3; ++i) {
      const auto& v = sensor(i);
      MC_REQUIRE(delay(i) == k.delays[i] && std::get<1>(v)->toEuclidean() == translation(i) && near(std::get<2>(v)->toRotationMatrix(), rotation(attitude(i))), "sensor " << kIds[i] << " does not start at the configuration");
      MC_REQUIRE(std::get<0>(v)->isActive() == k.active[i][0] && std::get<1>(v)->isActive() == k.active[i][1] && std::get<2>(v)->isActive() == k.active[i][2], "what is estimated of sensor " << kIds[i] << " is not what the configuration says");
      params[i].push_back(parameters(i));
    }
    bool threw = false;
    try { cal->getDesignVariables()->getParameters(1); } catch (const OutOfBoundException<size_t>&) { threw = true; }
    MC_REQUIRE(threw, "parameters of a sensor that does not exist");
  }
  static V3 translation(int i) { return V3(0.5 * i, -0.25, 0.125 * i); }
  static V3 attitude(int i) { return V3(0.75 * i, -0.125, 0.25 * i); }
  decltype(std::declval<DesignVariables&>().calibrationVariables_.at(0)) sensor(int i) const { return cal->getDesignVariables()->calibrationVariables_.at(kIds[i]); }
  Time delay(int i) const { return std::get<0>(sensor(i))->toScalar().getNumerator(); }
  std::vector<DV*> calibration() const {
    std::vector<DV*> v;
    for (auto& s : cal->getDesignVariables()->calibrationVariables_) { v.push_back(std::get<0>(s.second).get()); v.push_back(std::get<1>(s.second).get()); v.push_back(std::get<2>(s.second).get()); }
    return v;
  }
  Vec parameters(int i) const {
    Vec p(7); p << delay(i) / 1e9, std::get<1>(sensor(i))->toEuclidean(), angles(std::get<2>(sensor(i))->toRotationMatrix());
    return p;
  }
  typedef Path<Calibrator::TranslationSpline, Calibrator::RotationSpline> ThePath;
  ThePath path() const { return {cal->getTranslationSpline(), cal->getRotationSpline()}; }
  Time first() const { return waiting[0].front().t - waiting[0].front().duration; }
  bool used(int i, const Motion& m) const {
    const Time u = m.t - delay(i);
    return i == 0 || (u - k.bound >= first() && u + k.bound <= waiting[0].back().t);
  }
  // where the sensor is
  M4 pose(int i, Time t) const {
    const ThePath p = path();
    const Time u = i ? t - delay(i) : t;
    const M4 T = transform(p.position(u), p.attitude(u));
    return i ? M4(T * transform(std::get<1>(sensor(i))->toEuclidean(), std::get<2>(sensor(i))->toRotationMatrix())) : T;
  }
  // pairs of measurements that follow each other
  std::vector<std::pair<Motion, Motion>> pairs(int i) const {
    std::vector<std::pair<Motion, Motion>> v;
    const Motion* before = nullptr;
    for (auto& m : waiting[i]) if (used(i, m)) { if (before) v.push_back({*before, m}); before = &m; }
    return v;
  }
  Term term(int i, const std::pair<Motion, Motion>& m) const {
    Term t;
    t.name = "sensor " + std::to_string(kIds[i]) + " at " + std::to_string(m.second.t);
    const ThePath p = path();
    t.error = [this, i, m]() { return difference(m.second.T, pose(i, m.first.t).inverse() * pose(i, m.second.t)); };
    t.covariance = m.second.S;
    if (i) t.dvs = {std::get<0>(sensor(i)).get(), std::get<1>(sensor(i)).get(), std::get<2>(sensor(i)).get()};
    return t;
  }
  void checkCurves() const {
    const ThePath p = path();
    MC_REQUIRE(p.trans && p.rot, "no spline");
    std::vector<Time> t{first()};
    std::vector<V3> r{p.trans->value(first())}; std::vector<M3> C{p.attitude(first())};
    for (auto& m : waiting[0]) {
      t.push_back(m.t);
      r.push_back(r.back() + C.back() * m.T.topRightCorner<3, 1>());
      C.push_back(C.back() * m.T.topLeftCorner<3, 3>());
    }
    curves(p, t, r, C, k.knots, k.transOrder, k.rotOrder, k.transLambda, k.rotLambda, waiting[0].size());
  }
  template <class F> void request(mc::Chooser& c, bool hands, const F& f) {
    bool seen = false;
    env.seen = nullptr;
    // sensors come in the order of the store
    std::vector<int> order;
    for (auto& w : cal->motionMeasurements_) order.push_back(w.first == kIds[0] ? 0 : w.first == kIds[1] ? 1 : 2);
    if (hands && !accepted) {
      // nothing to optimise: the optimizer refuses, and the history ends
      size_t terms = 0;
      for (int i = 0; i < 3; ++i) terms += pairs(i).size();
      if (!terms) {
        bool threw = false;
        try { f(); } catch (const std::exception&) { threw = true; }
        MC_REQUIRE(threw, "a batch without error terms is optimised");
        over = true;
        return;
      }
    }
    if (hands) {
      env.accept = c.flip();
      env.seen = [this, &c, &seen, order](IncrementalOptimizationProblem& all) {
        seen = true;
        checkCurves();
        std::vector<Term> want;
        Time room = 10 * ms;
        std::string n;
        for (int i : order) {
          for (auto& p : pairs(i)) {
            want.push_back(term(i, p));
            if (i) room = std::min(room, p.first.t - delay(i) - first());
          }
          n += "/" + std::to_string(want.size());
        }
        c.note(n);
        batch(c, all, path(), calibration(), [&] { return want; }, [&](DV* v, double by) {
          for (int i = 0; i < 3; ++i) if (v == std::get<0>(sensor(i)).get()) return room > by * 1e9;
          return true;
        });
      };
    }
    const int before = env.optimisations;
    f();
    env.seen = nullptr;
    MC_REQUIRE((env.optimisations > before) == hands, (hands ? "no batch is handed to the estimator" : "a batch is handed to the estimator too early"));
    if (!hands) return;
    MC_REQUIRE(seen, "the estimator never saw the batch");
    gains.push_back(0.5 * (env.next() - (accepted ? env.log : 0)));
    if (env.accept || accepted == 0) { env.log = env.next(); ++accepted; }
    for (int i = 0; i < 3; ++i) { params[i].push_back(parameters(i)); waiting[i].clear(); }
    start = last;
    MC_REQUIRE((int)cal->getEstimator()->getNumBatches() == accepted, "the estimator keeps " << cal->getEstimator()->getNumBatches() << " batches instead of " << accepted);
  }
  void add(mc::Chooser& c, int i, int number, Time t) {
    const bool due = start != -1 && t - start >= (Time)std::llround(k.window * 1e9) && !waiting[0].empty();
    last = t;
    if (start == -1) start = t;
    // a motion lasts since the sensor's last
    const Motion m = motion(number, t, previous[i] == -1 ? 10 * ms : t - previous[i]);
    previous[i] = t;
    MotionMeasurement x; x.motion = sm::kinematics::Transformation(m.T); x.duration = m.duration; x.sigma2 = m.S;
    request(c, due, [&] { cal->addMotionMeasurement(x, t, kIds[i]); });
    if (!over) waiting[i].push_back(m);
  }
  void process(mc::Chooser& c) { request(c, !waiting[0].empty(), [&] { cal->addMeasurements(); }); }
  void predict(mc::Chooser& c) {
    request(c, false, [&] { cal->predict(); });
    if (waiting[0].empty()) return;
    checkCurves();
    for (int i = 0; i < 3; ++i) for (auto& p : pairs(i)) {
      const Term t = term(i, p);
      const Vec e = t.error();
      predictions[i].push_back({p.second.t, pose(i, p.first.t).inverse() * pose(i, p.second.t), e, e.dot(t.covariance.inverse() * e)});
    }
  }
  void clearPredictions() { cal->clearPredictions(); for (auto& p : predictions) p.clear(); }
  void clear() { cal->clearMeasurements(); for (auto& w : waiting) w.clear(); }
  template <class M> static typename M::mapped_type of(const M& m, size_t id) { auto it = m.find(id); return it == m.end() ? typename M::mapped_type() : it->second; }
  void observe(mc::Chooser& c) {
    c.check();
    bool any = false;
    for (int i = 0; i < 3; ++i) {
      any |= !waiting[i].empty();
      const auto got = of(cal->motionMeasurements_, kIds[i]);
      MC_REQUIRE(got.size() == waiting[i].size(), "sensor " << kIds[i] << ": " << got.size() << " measurements are waiting instead of " << waiting[i].size());
      for (size_t j = 0; j < got.size(); ++j) MC_REQUIRE(got[j].first == waiting[i][j].t && near(got[j].second.motion.T(), waiting[i][j].T), "the measurements waiting are others");
      const std::vector<Vec> h = of(cal->getDesignVariablesHistory(), kIds[i]);
      MC_REQUIRE(h.size() == params[i].size(), "history of " << h.size() << " calibrations after " << gains.size() << " batches");
      for (size_t j = 0; j < h.size(); ++j) MC_REQUIRE(near(h[j], params[i][j], 1e-9), "calibration after batch " << j << ": " << show(h[j]) << " instead of " << show(params[i][j]));
      const auto p = of(cal->motionMeasurementsPred_, kIds[i]); const auto e = of(cal->motionMeasurementsPredErrors_, kIds[i]); const auto e2 = of(cal->motionMeasurementsPredErrors2_, kIds[i]);
      const auto& want = predictions[i];
      MC_REQUIRE(p.size() == want.size() && e.size() == want.size() && e2.size() == want.size(), "sensor " << kIds[i] << ": " << p.size() << " predictions instead of " << want.size());
      for (size_t j = 0; j < want.size(); ++j) {
        MC_REQUIRE(p[j].first == want[j].t && near(p[j].second.motion.T(), want[j].T), "sensor " << kIds[i] << ": prediction " << j);
        MC_REQUIRE(near(e[j], want[j].error) && near(Mat::Constant(1, 1, e2[j]), Mat::Constant(1, 1, want[j].cost), 1e-5), "sensor " << kIds[i] << ": prediction error " << show(e[j]) << " instead of " << show(want[j].error));
      }
    }
    MC_REQUIRE(cal->unprocessedMeasurements() == any, "unprocessedMeasurements() says " << cal->unprocessedMeasurements());
    const std::vector<double> g = cal->getInformationGainHistory();
    MC_REQUIRE(g.size() == gains.size(), "history of " << g.size() << " information gains after " << gains.size() << " batches");
    for (size_t i = 0; i < g.size(); ++i) MC_REQUIRE(near(Mat::Constant(1, 1, g[i]), Mat::Constant(1, 1, gains[i])), "information gain of batch " << i << ": " << g[i] << " instead of " << gains[i]);
  }
};

void histories(mc::Chooser& c) {
  World w(c, Config());
  Time t = 20 * ms;
  int n = 0;
  const int depth = mc::config().thorough() ? 7 : 6;
  for (int i = 0; i < depth; ++i) {
    const int a = c.choose(9);
    c.step();
    if (a < 6) {
      t += a % 2 ? 10 * ms : 30 * ms;
      c.trace([&](std::ostream& o) { o << "sensor " << kIds[a / 2] << " at " << t; });
      w.add(c, a / 2, n++, t);
    } else if (a == 6) { c.traceText("process"); w.process(c); }
    else if (a == 7) { const bool p = c.flip(); c.traceText(p ? "clear predictions" : "clear measurements"); if (p) w.clearPredictions(); else w.clear(); }
    else { c.traceText("predict"); w.predict(c); }
    if (w.over) { c.outcome("refused"); return; }
    if (c.fresh()) w.observe(c);
  }
  c.outcome(std::to_string(w.gains.size()) + "/" + std::to_string(w.accepted));
}
void windows(mc::Chooser& c) {
  Config k; k.delays[1] = 3 * ms; k.bound = 0; k.knots = 60;
  World w(c, k);
  w.env.still = true;
  Time t = 20 * ms;
  const int depth = mc::config().thorough() ? 10 : 8;
  for (int i = 0; i < depth; ++i) {
    const int a = c.choose(4);
    c.step();
    t += a % 2 ? 10 * ms : 30 * ms;
    c.trace([&](std::ostream& o) { o << "sensor " << kIds[a / 2] << " at " << t; });
    w.add(c, a / 2, i, t);
    if (w.over) { c.outcome("refused"); return; }
    if (c.fresh()) w.observe(c);
  }
  c.outcome(std::to_string(w.gains.size()) + "/" + std::to_string(w.accepted));
}
void grid(mc::Chooser& c) {
  Config k;
  k.window = 10;
  const Time delays[] = {0, 4 * ms, -7 * ms, 60 * ms}, bounds[] = {0, 1 * ms, 3 * ms, 60 * ms};
  k.delays[1] = delays[c.choose(4)]; k.delays[2] = delays[c.choose(4)]; k.bound = bounds[c.choose(4)];
  const int mask = c.choose(8);
  for (int i = 0; i < 3; ++i) { k.active[1][i] = mask >> i & 1; k.active[0][i] = k.active[2][i] = !k.active[1][i]; }
  static const int knots[] = {5, 100, 150};
  k.knots = knots[c.choose(3)];
  static const int counts[] = {1, 2, 5};
  const int n = counts[c.choose(3)], seed = c.choose(3);
  if (seed == 1) { k.transOrderGiven = false; k.rotOrder = 6; k.transLambda = 0; }
  if (seed == 2) { k.transOrder = 5; k.rotLambda = 0; }
  World w(c, k);
  w.env.still = true;
  for (int i = 0; i < n; ++i) w.add(c, 0, i * (seed + 1) + seed, 110 * ms + i * 10 * ms);
  int number = 0;
  for (Time t = 80 * ms; t <= 170 * ms; t += 2 * ms + ms * (number % 3)) { w.add(c, 1, ++number, t); w.add(c, 2, ++number, t); }
  c.step();
  w.predict(c);
  w.observe(c);
  w.process(c);
  if (w.over) { c.outcome("refused"); return; }
  w.observe(c);
  c.outcome(std::to_string(w.predictions[1].size()) + "/" + std::to_string(w.predictions[2].size()));
}
// Y01: what the calibration variables print is what they hold
void printedEgo(mc::Chooser& c) {
  World w(c, Config());
  std::vector<DV*> v = w.calibration();
  for (int i = 0; i < (mc::config().thorough() ? 3 : 2); ++i) {
    DV* d = v[c.choose((int)v.size())];
    const double dp[] = {0.0625, -0.03125, 0.015625, 0.125};
    d->update(dp, d->minimalDimensions());
    c.trace([&](std::ostream& o) { o << "variable " << (std::find(v.begin(), v.end(), d) - v.begin()) << " changes"; });
    text::Fields f;
    for (int i = 0; i < 3; ++i) {
      const Vec p = w.parameters(i);
      const std::string k = "_" + std::to_string(kIds[i]);
      f["t" + k] = text::one(p(0)); f["r" + k] = text::rows(Vec(p.segment(1, 3))); f["R" + k] = text::rows(Vec(p.segment(4, 3)));
      MC_REQUIRE(near(w.cal->getDesignVariables()->getParameters(kIds[i]), p, 1e-12), "the vector of parameters of sensor " << kIds[i] << " differs from them");
    }
    text::printed(c, "the calibration", *w.cal->getDesignVariables(), f, 1e-12);
  }
}
mc::Register y1("Y01", "ego-calibration", printedEgo, "every sequence of 2 (thorough: 3) changes to the calibration variables of three sensors", 1, 1);
mc::Register h1("K01", "ego-histories", histories, "every history of 6 (thorough: 7) requests: a motion of the reference or one of two other sensors 10 or 30 ms later (a window lasts 50 ms), process, clear, predict, clear predictions; every batch kept or rejected", 32, 2);
mc::Register h2("K01", "ego-windows", windows, "every sequence of 8 (thorough: 10) motions of the reference and another sensor 10 or 30 ms apart, over several windows; every batch kept or rejected", 16, 2);
mc::Register h3("K01", "ego-grid", grid, "time delays {0, 4, -7, 60} ms of two sensors x bounds {0, 1, 3, 60} ms x {1, 2, 5} motions of the reference x motions of the others from before to after them x knots, orders, smoothing, what is estimated", 16, 3);

void shippedEgo(mc::Chooser& c) {
  sm::BoostPropertyTree t;
  shipped("incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/conf/simulation.xml", t);
  Oracle env;
  c.check(); c.step();
  Calibrator x(sm::PropertyTree(t, "egomotion/calibrator"));
  MC_REQUIRE(!x.unprocessedMeasurements(), "the calibrator is not as shipped");
  c.outcome("calibrator");
}
mc::Register h4("K01", "ego-shipped", shippedEgo, "the calibrator from the configuration that is shipped", 1, 1);
}  // namespace
MC_MAIN
