// J01: error terms of the planar laser rangefinder.
#include <terms_common.hpp>
#include <complex>
#include <aslam/calibration/2dlrf/ErrorTermMotion.h>
#include <aslam/calibration/2dlrf/ErrorTermObservation.h>
#include <aslam/calibration/data-structures/VectorDesignVariable.h>

using namespace aslam::calibration;
using namespace terms;

namespace {
struct Motion {
  VectorDesignVariable<3> a{Eigen::Vector3d(0, 0, 0)}, b{Eigen::Vector3d(0, 0, 0)};
  Spec<ErrorTermMotion> s;
  std::vector<Eigen::Vector3d> u = {{0, 0, 0}, {1.5, -0.25, 0.7}, {-2, 3, -3.1}};
  std::vector<double> T = {0.1, 1, 2.5};
  Motion() {
    s.dvs = {&a, &b};
    s.values = {{col({0, 0, 0}), col({1, 2, 0.5}), col({-3, 1, -2.5}), col({4, 4, 7})}, {col({0.5, 0.25, 0.1}), col({1, 2, 0.5}), col({10, -3, -9})}};
    s.nMeas = (int)u.size(); s.nCov = 3; s.nAux = (int)T.size();
    s.cov = [](int i) { return covariance(3, i); };
    s.make = [this](int m, int c, int x) { return new ErrorTermMotion(&a, &b, T[x], u[m], s.cov(c)); };
    s.setMeas = [this](ErrorTermMotion& t, int m) { t.setInput(u[m]); };
    s.setMeasRef = [this](ErrorTermMotion& t, int m) { t.getInput() = u[m]; };
    s.setCov = [this](ErrorTermMotion& t, int c) { t.setCovariance(s.cov(c)); };
    s.setAux = [this](ErrorTermMotion& t, int x) { t.setTimestep(T[x]); };
    s.kept = [this](const ErrorTermMotion& t, int m, int c, int x) { return std::string(t.getInput() != u[m] ? "forgets its input" : Mat(t.getCovariance()) != s.cov(c) ? "forgets its covariance" : t.getTimestep() != T[x] ? "forgets its time step" : ""); };
    s.want = [this](int m, int x) {
      // displacement in the frame of the first pose, per second
      const Eigen::Vector3d p = a.getValue(), q = b.getValue();
      const std::complex<double> d = std::complex<double>(q(0) - p(0), q(1) - p(1)) * std::polar(1.0, -p(2)) / T[x];
      // headings are equal up to full turns
      return Vec(Eigen::Vector3d(u[m](0) - d.real(), u[m](1) - d.imag(), wrap(u[m](2) * T[x] - (q(2) - p(2))) / T[x]));
    };
  }
};
struct Observation {
  VectorDesignVariable<3> x{Eigen::Vector3d(0, 0, 0)}, theta{Eigen::Vector3d(0, 0, 0)};
  VectorDesignVariable<2> l{Eigen::Vector2d(1, 1)};
  Spec<ErrorTermObservation> s;
  std::vector<std::pair<double, double>> z = {{1, 0}, {2.5, 3.1}, {4, -3.1}, {0.7, 9}};
  Observation() {
    s.dvs = {&x, &l, &theta};
    s.values = {{col({0, 0, 0}), col({1, 2, 0.5}), col({-3, 1, -2.5}), col({4, 4, 7})},
                {col({5, 1}), col({-6, 0.25}), col({0.5, -8}), col({-7, -0.001})},
                {col({0.219, 0.1, 0.78}), col({0, 0, 0}), col({-0.5, 0.4, -3}), col({1, -1, 12})}};
    s.nMeas = (int)z.size(); s.nCov = 3;
    s.angles = {1};
    s.cov = [](int i) { return covariance(2, i); };
    s.make = [this](int m, int c, int) { return new ErrorTermObservation(&x, &l, &theta, z[m].first, z[m].second, s.cov(c)); };
    s.setMeas = [this](ErrorTermObservation& t, int m) { t.setRange(z[m].first); t.setBearing(z[m].second); };
    s.setCov = [this](ErrorTermObservation& t, int c) { t.setCovariance(s.cov(c)); };
    s.kept = [this](const ErrorTermObservation& t, int m, int c, int) { return std::string(t.getRange() != z[m].first || t.getBearing() != z[m].second ? "forgets its measurement" : Mat(t.getCovariance()) != s.cov(c) ? "forgets its covariance" : ""); };
    s.want = [this](int m, int) {
      // the landmark in the frame of the sensor, which is mounted at theta
      typedef std::complex<double> C;
      const Eigen::Vector3d p = x.getValue(), h = theta.getValue();
      const C inRobot = (C(l.getValue()(0), l.getValue()(1)) - C(p(0), p(1))) * std::polar(1.0, -p(2));
      const C inSensor = (inRobot - C(h(0), h(1))) * std::polar(1.0, -h(2));
      Vec e(2); e << z[m].first - std::abs(inSensor), wrap(z[m].second - std::arg(inSensor));
      return e;
    };
  }
};
mc::Register a1("J01", "lrf-motion", [](mc::Chooser& c) { Motion m; history(c, m.s, "motion", mc::config().thorough() ? 5 : 4); }, "two terms, every history of up to 4 (thorough: 5) changes of measurement, covariance, time step, design variables, activity, copies and evaluations", 4, 2);
mc::Register a2("J01", "lrf-motion-values", [](mc::Chooser& c) { Motion m; grid(c, m.s, "motion"); }, "every combination of values");
mc::Register a3("J01", "lrf-observation", [](mc::Chooser& c) { Observation m; history(c, m.s, "observation", mc::config().thorough() ? 5 : 4); }, "the same for observations of a landmark", 4, 2);
mc::Register a4("J01", "lrf-observation-values", [](mc::Chooser& c) { Observation m; grid(c, m.s, "observation"); }, "every combination of values, bearings across the half turn");
mc::Register z0("J01", "lrf-motion-apart", [](mc::Chooser& c) { Motion p, q; apart(c, p.s, q.s, "motion"); }, "assigning or copying a term of other design variables, every combination of values");
mc::Register z1("J01", "lrf-observation-apart", [](mc::Chooser& c) { Observation p, q; apart(c, p.s, q.s, "observation"); }, "assigning or copying a term of other design variables, every combination of values");
}  // namespace
MC_MAIN
