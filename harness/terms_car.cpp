// J01: error terms of the car package.
#include <terms_vehicle.hpp>
#include <complex>
#include <aslam/calibration/car/error-terms/ErrorTermPose.h>
#include <aslam/calibration/car/error-terms/ErrorTermSteering.h>
#include <aslam/calibration/car/error-terms/ErrorTermVelocities.h>
#include <aslam/calibration/car/error-terms/ErrorTermWheel.h>
#include <aslam/calibration/data-structures/VectorDesignVariable.h>
using namespace aslam::calibration;
using namespace terms;
namespace {
struct Steering {
  aslam::backend::EuclideanPoint v{Eigen::Vector3d(1, 0, 0)};
  VectorDesignVariable<4> p{Eigen::Vector4d::Zero()};
  Spec<ErrorTermSteering> s;
  std::vector<double> m = {0, 0.3, -2};
  Steering() {
    s.dvs = {&v, &p};
    s.values = {{col({10, 0.5, -0.1}), col({-4, 2, 0.3}), col({-4, -0.01, 0}), col({0, 3, 1}), col({0, -3, 1}), col({0, 0, 0})},
                {col({0, 1, 0, 0}), col({0.1, -0.5, 0.02, 0.3}), col({3.1, 2, 5, -7})}};
    s.nMeas = (int)m.size(); s.nCov = 3;
    s.angles = {0};
    s.cov = [](int i) { return Mat::Constant(1, 1, 0.5 + i); };
    s.make = [this](int i, int c, int) { return new ErrorTermSteering(aslam::backend::EuclideanExpression(&v), m[i], s.cov(c)(0, 0), &p); };
    s.setMeas = [this](ErrorTermSteering& t, int i) { t.setMeasurement(m[i]); };
    s.setCov = [this](ErrorTermSteering& t, int c) { t.setVariance(s.cov(c)(0, 0)); };
    s.kept = [this](const ErrorTermSteering& t, int i, int c, int) { return std::string(t.getMeasurement() != m[i] ? "forgets its measurement" : t.getVariance() != s.cov(c)(0, 0) ? "forgets its variance" : ""); };
    s.want = [this](int i, int) {
      const Eigen::Vector4d a = p.getValue();
      const double x = m[i];
      return Vec(Vec::Constant(1, wrap(a(0) + x * (a(1) + x * (a(2) + x * a(3))) - std::arg(std::complex<double>(v.toEuclidean()(0), v.toEuclidean()(1))))));
    };
    s.smooth = [this](int) { return v.toEuclidean().head<2>().norm() == 0 ? 0 : 2; };
  }
};
struct Velocities {
  aslam::backend::EuclideanPoint v{Eigen::Vector3d(1, 0, 0)}, w{Eigen::Vector3d(0, 0, 0)}, o{Eigen::Vector3d(0, 0, 0)};
  Spec<ErrorTermVelocities> s;
  std::vector<Eigen::Vector3d> m = {{0, 0, 0}, {1, -2, 3}};
  Velocities() {
    s.dvs = {&v, &w, &o};
    s.values = {{col({10, 0.5, -0.1}), col({-4, 2, 0.3})}, {col({0, 0, 0}), col({0.25, -1, 0.5})}, {col({0.1, 0.2, -0.3}), col({2, -1, 0})}};
    s.nMeas = 4; s.nCov = 3;
    s.cov = [](int i) { Mat c = Mat::Zero(6, 6); c.topLeftCorner(3, 3) = covariance(3, i); c.bottomRightCorner(3, 3) = covariance(3, 2 - i); return c; };
    s.make = [this](int i, int c, int) {
      return new ErrorTermVelocities(aslam::backend::EuclideanExpression(&v) + aslam::backend::EuclideanExpression(&w), aslam::backend::EuclideanExpression(&o).cross(aslam::backend::EuclideanExpression(&w)), m[i % 2], m[i / 2],
                                     covariance(3, c), covariance(3, 2 - c));
    };
    s.kept = [](const ErrorTermVelocities&, int, int, int) { return std::string(); };
    s.want = [this](int i, int) {
      Vec e(6);
      const Eigen::Vector3d a = o.toEuclidean(), b = w.toEuclidean();
      e << m[i % 2] - v.toEuclidean() - b, m[i / 2] - Eigen::Vector3d(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0));
      return e;
    };
  }
};
VEHICLE_TERMS("car")
mc::Register s1("J01", "car-steering", [](mc::Chooser& c) { Steering p; history(c, p.s, "steering", mc::config().thorough() ? 5 : 4); }, "the same for steering angles", 4, 2);
mc::Register s2("J01", "car-steering-values", [](mc::Chooser& c) { Steering p; grid(c, p.s, "steering"); }, "every combination of values, across the half turn and without forward velocity");
mc::Register v1("J01", "car-velocities", [](mc::Chooser& c) { Velocities p; history(c, p.s, "velocities", mc::config().thorough() ? 5 : 4); }, "the same for body velocities", 4, 2);
mc::Register v2("J01", "car-velocities-values", [](mc::Chooser& c) { Velocities p; grid(c, p.s, "velocities"); }, "every combination of values");
mc::Register z0("J01", "car-steering-apart", [](mc::Chooser& c) { Steering p, q; apart(c, p.s, q.s, "steering"); }, "assigning or copying a term of other design variables, every combination of values");
mc::Register z1("J01", "car-velocities-apart", [](mc::Chooser& c) { Velocities p, q; apart(c, p.s, q.s, "velocities"); }, "assigning or copying a term of other design variables, every combination of values");
}  // namespace
MC_MAIN
