// J01: error terms shared by the vehicle packages.
#ifndef VERIF_TERMS_VEHICLE_HPP
#define VERIF_TERMS_VEHICLE_HPP
#include <terms_common.hpp>
#include <verif_expressions.hpp>
namespace terms {
inline Mat quaternion(double ax, double ay, double az, double angle) {
  const Eigen::Vector3d a = Eigen::Vector3d(ax, ay, az).normalized() * std::sin(angle / 2);
  Mat q(4, 1); q << -a, std::cos(angle / 2);
  return q;
}
template <class Term> struct Pose {
  aslam::backend::RotationQuaternion R1{Eigen::Vector4d(0, 0, 0, 1)}, R2{Eigen::Vector4d(0, 0, 0, 1)};
  aslam::backend::EuclideanPoint t1{Eigen::Vector3d(0, 0, 0)}, t2{Eigen::Vector3d(0, 0, 0)};
  aslam::backend::TransformationExpression T{aslam::backend::RotationExpression(&R1), aslam::backend::EuclideanExpression(&t1)};
  Spec<Term> s;
  std::vector<Vec> m = {Vec::Zero(6), col({1, -2, 3, 3.1, 3.0, -3.1}), col({-5, 0.5, 0.25, -3.1, -3.0, 8})};
  explicit Pose(bool product) {
    s.dvs = {&R1, &t1};
    s.values = {{quaternion(1, 0, 0, 0), quaternion(0, 0, 1, 3.0), quaternion(1, 2, 3, -1.2), quaternion(1, 0.1, 0.2, 3.05)},
                {col({0, 0, 0}), col({1, -2, 3.5}), col({-70, 20, 4})}};
    if (product) {
      // the pose of a sensor on a moving body
      T = aslam::backend::TransformationExpression(aslam::backend::RotationExpression(&R1), aslam::backend::EuclideanExpression(&t1)) *
          aslam::backend::TransformationExpression(aslam::backend::RotationExpression(&R2), aslam::backend::EuclideanExpression(&t2)).inverse();
      s.dvs.push_back(&R2); s.dvs.push_back(&t2);
      s.values.push_back({quaternion(0, 1, 0, 0.3), quaternion(-1, 0.2, 0, 0.9), quaternion(0, 0, 1, -3.1)});
      s.values.push_back({col({0.5, 0.25, -1}), col({0, 0, 0})});
    }
    s.nMeas = (int)m.size(); s.nCov = 3;
    s.angles = {3, 4, 5};
    s.cov = [](int i) { return covariance(6, i); };
    s.make = [this](int k, int c, int) { return new Term(T, m[k], s.cov(c)); };
    s.setMeas = [this](Term& t, int k) { t.setInput(m[k]); };
    s.setMeasRef = [this](Term& t, int k) { t.getInput() = m[k]; };
    s.setCov = [this](Term& t, int c) { t.setCovariance(s.cov(c)); };
    s.kept = [this](const Term& t, int k, int c, int) { return std::string(Vec(t.getInput()) != m[k] ? "forgets its measurement" : Mat(t.getCovariance()) != s.cov(c) ? "forgets its covariance" : ""); };
    s.want = [this](int k, int) {
      const Eigen::Matrix4d M = T.toTransformationMatrix();
      const Eigen::Matrix3d C = M.topLeftCorner<3, 3>();
      Vec e = m[k];
      e.head<3>() -= M.topRightCorner<3, 1>();
      e(3) -= std::atan2(C(1, 0), C(0, 0));
      e(4) -= std::atan2(-C(2, 0), std::hypot(C(2, 1), C(2, 2)));
      e(5) -= std::atan2(C(2, 1), C(2, 2));
      for (int i = 3; i < 6; ++i) e(i) = wrap(e(i));
      return e;
    };
    s.smooth = [this](int) { return std::fabs(T.toTransformationMatrix()(2, 0)) < 0.99 ? 2 : 0; };
  }
};
template <class Term> struct Wheel {
  aslam::backend::EuclideanPoint v{Eigen::Vector3d(1, 0, 0)}, w{Eigen::Vector3d(0, 0, 0)};
  aslam::backend::Scalar k{1};
  Spec<Term> s;
  std::vector<double> m = {0, 12.5, -3};
  Wheel() {
    // the velocity of the wheel comes from two design variables
    s.dvs = {&v, &w, &k};
    s.values = {{col({10, 0.5, -0.1}), col({-4, 2, 0.3}), col({0, 0, 0}), col({0.1, 0.2, 0}), col({0, -2, 0})}, {col({0, 0, 0}), col({0.25, -1, 0.5})}, {col({1}), col({-0.75}), col({3600})}};
    s.nMeas = (int)m.size(); s.nCov = 3; s.nAux = 2;
    s.cov = [](int i) { return covariance(3, i); };
    s.make = [this](int i, int c, int a) { return new Term(aslam::backend::EuclideanExpression(&v) + aslam::backend::EuclideanExpression(&w), aslam::backend::ScalarExpression(&k), m[i], s.cov(c), a == 1); };
    s.setMeas = [this](Term& t, int i) { t.setMeasurement(m[i]); };
    s.setCov = [this](Term& t, int c) { t.setCovariance(s.cov(c)); };
    s.setAux = [](Term& t, int a) { t.setFrontEnabled(a == 1); };
    s.kept = [this](const Term& t, int i, int c, int a) { return std::string(t.getMeasurement() != m[i] ? "forgets its measurement" : Mat(t.getCovariance()) != s.cov(c) ? "forgets its covariance" : t.getFrontEnabled() != (a == 1) ? "forgets which wheel it is" : ""); };
    s.want = [this](int i, int a) {
      const Eigen::Vector3d u = v.toEuclidean() + w.toEuclidean();
      Vec e(3);
      // a steered wheel rolls where it goes
      if (a) e << m[i] - k.toScalar() * (std::signbit(u(0)) ? -1 : 1) * std::hypot(u(0), u(1)), 0, -u(2);
      else e << m[i] - k.toScalar() * u(0), -u(1), -u(2);
      return e;
    };
    s.smooth = [this](int a) {
      const Eigen::Vector3d u = v.toEuclidean() + w.toEuclidean();
      return a && u(0) == 0 ? 1 : 2;
    };
  }
};
}  // namespace terms
#define VEHICLE_TERMS(pkg) \
  mc::Register p1("J01", pkg "-pose", [](mc::Chooser& c) { Pose<ErrorTermPose> p(false); history(c, p.s, pkg " pose", mc::config().thorough() ? 5 : 4); }, "two terms, every history of up to 4 (thorough: 5) changes of measurement, covariance, design variables, activity, copies and evaluations", 4, 2); \
  mc::Register p2("J01", pkg "-pose-values", [](mc::Chooser& c) { Pose<ErrorTermPose> p(true); grid(c, p.s, pkg " pose"); }, "every combination of values, the pose composed of four design variables", 2, 2); \
  mc::Register p3("J01", pkg "-wheel", [](mc::Chooser& c) { Wheel<ErrorTermWheel> p; history(c, p.s, pkg " wheel", mc::config().thorough() ? 4 : 3); }, "the same for wheel speeds, steered and not, forwards, backwards and at standstill", 4, 2); \
  mc::Register p4("J01", pkg "-wheel-values", [](mc::Chooser& c) { Wheel<ErrorTermWheel> p; grid(c, p.s, pkg " wheel"); }, "every combination of values", 2, 2); \
  mc::Register p5("J01", pkg "-pose-apart", [](mc::Chooser& c) { Pose<ErrorTermPose> p(false), q(true); apart(c, p.s, q.s, pkg " pose"); }, "assigning or copying a term of other design variables, every combination of values"); \
  mc::Register p6("J01", pkg "-wheel-apart", [](mc::Chooser& c) { Wheel<ErrorTermWheel> p, q; apart(c, p.s, q.s, pkg " wheel"); }, "assigning or copying a term of other design variables, every combination of values");
#endif
