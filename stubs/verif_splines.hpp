// Stand-in for bsplines and aslam_splines: curves through the given points
// (straight lines between positions, great circles between quaternions).
#ifndef VERIF_SPLINES_HPP
#define VERIF_SPLINES_HPP

#include <algorithm>
#include <vector>

#include <boost/make_shared.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
#include <verif_expressions.hpp>

namespace verif {

struct SplineControl : public aslam::backend::DesignVariable {
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  bool quat = false;
  Eigen::VectorXd v, old;
 protected:
  void revertUpdateImplementation() { v = old; }
  void updateImplementation(const double* d, int) {
    old = v;
    const Eigen::Vector3d x(d[0], d[1], d[2]);
    if (quat) v = sm::kinematics::qplus(sm::kinematics::qexp(x), Eigen::Vector4d(v)); else v += x;
  }
  int minimalDimensionsImplementation() const { return 3; }
  void getParametersImplementation(Eigen::MatrixXd& m) const { m = v; }
  void setParametersImplementation(const Eigen::MatrixXd& m) { old = v; v = m; }
};

template <int N>
class Spline {
 public:
  typedef sm::timing::NsecTime Time;
  typedef Eigen::Matrix<double, N, 1> point_t;
  typedef aslam::backend::FixedPointNumber<Time, (long)1e9> FP;
  typedef aslam::backend::GenericScalarExpression<FP> TimeExpression;
  struct Conf {
    struct ManifoldConf { explicit ManifoldConf(int = 4) {} };
    Conf(const ManifoldConf&, int order) : order(order) {}
    int order;
    static const int dimension = N;
  };
  explicit Spline(const Conf& c) : order(c.order) {}
  // what it was fitted with
  int order, segments = 0;
  double lambda = 0;
  std::vector<Time> times;
  std::vector<boost::shared_ptr<SplineControl> > control;

  void fit(const std::vector<Time>& t, const std::vector<point_t>& p, int numSegments, double l) {
    if (t.empty() || t.size() != p.size()) throw std::runtime_error("initUniformSpline: wrong sizes");
    if (numSegments < 1) throw std::runtime_error("initUniformSpline: no segment");
    for (size_t i = 1; i < t.size(); ++i) if (t[i] < t[i - 1]) throw std::runtime_error("initUniformSpline: times not sorted");
    times = t; segments = numSegments; lambda = l; control.clear();
    for (auto& x : p) { control.push_back(boost::make_shared<SplineControl>()); control.back()->v = x; control.back()->quat = N == 4; }
  }
  Time getMinTime() const { return times.front(); }
  Time getMaxTime() const { return times.back(); }
  size_t numDesignVariables() const { return control.size(); }
  aslam::backend::DesignVariable* designVariable(size_t i) const { return control.at(i).get(); }

  size_t segment(Time t) const {
    if (t < times.front() || t > times.back()) throw std::runtime_error("spline evaluated outside of its range");
    size_t i = std::upper_bound(times.begin(), times.end(), t) - times.begin();
    return i >= times.size() ? (times.size() > 1 ? times.size() - 2 : 0) : i - 1;
  }
  // value, its rate, and for rotations the angular velocity in the fixed frame
  point_t value(Time t) const {
    const size_t i = segment(t);
    if (times.size() == 1) return control[0]->v;
    const double u = double(t - times[i]) / double(times[i + 1] - times[i]);
    if (N == 3) return (1 - u) * control[i]->v + u * control[i + 1]->v;
    const double w = angle(i);
    if (w < 1e-12) return control[i]->v;
    return (std::sin((1 - u) * w) * control[i]->v + std::sin(u * w) * control[i + 1]->v) / std::sin(w);
  }
  point_t rate(Time t) const {
    const size_t i = segment(t);
    if (times.size() == 1) return point_t::Zero();
    return (control[i + 1]->v - control[i]->v) / (double(times[i + 1] - times[i]) * 1e-9);
  }
  // minus the angular velocity of C(q), seen in the frame C(q) maps to
  Eigen::Vector3d turn(Time t) const {
    const size_t i = segment(t);
    if (times.size() == 1) return Eigen::Vector3d::Zero();
    const Eigen::Vector4d a = control[i]->v.head(4), b = control[i + 1]->v.head(4);
    const Eigen::Vector4d d = sm::kinematics::qplus(b, sm::kinematics::quatInv(a));   // exp(-phi x)
    const double s = d.head<3>().norm();
    const Eigen::Vector3d phi = s < 1e-12 ? Eigen::Vector3d(2 * d.head<3>()) : Eigen::Vector3d(d.head<3>() / s * 2 * std::atan2(s, d(3)));
    return phi / (double(times[i + 1] - times[i]) * 1e-9);
  }

  template <int M> struct Factory {
    const Spline* s;
    std::function<Time()> t;
    aslam::backend::DesignVariable::set_t dvs;
    aslam::backend::VectorExpression<N> getValueExpression(int derivative = 0) const {
      if (derivative > M) throw std::runtime_error("derivative not available");
      const Spline* sp = s; auto at = t;
      return aslam::backend::VectorExpression<N>([sp, at, derivative]() { return derivative ? sp->rate(at()) : sp->value(at()); }, dvs);
    }
    aslam::backend::VectorExpression<3> getAngularVelocityExpression() const {
      const Spline* sp = s; auto at = t;
      return aslam::backend::VectorExpression<3>([sp, at]() { return sp->turn(at()); }, dvs);
    }
  };
  template <int M> Factory<M> getExpressionFactoryAt(Time t) const {
    Factory<M> f{this, [t]() { return t; }, {}};
    near(segment(t), f.dvs);
    return f;
  }
  template <int M> Factory<M> getExpressionFactoryAt(const TimeExpression& t, Time lower, Time upper) const {
    const Time now = t.toScalar().getNumerator();
    if (now < lower || now > upper) throw std::runtime_error("time outside of its bounds");
    Factory<M> f{this, [t]() { return t.toScalar().getNumerator(); }, {}};
    for (size_t i = segment(lower); i <= segment(upper); ++i) near(i, f.dvs);
    t.getDesignVariables(f.dvs);
    return f;
  }
  struct Evaluator { point_t v; point_t eval() const { return v; } };
  template <int M> Evaluator getEvaluatorAt(Time t) const { return Evaluator{value(t)}; }

 private:
  double angle(size_t i) const { return std::acos(std::max(-1.0, std::min(1.0, control[i]->v.dot(control[i + 1]->v)))); }
  void near(size_t i, aslam::backend::DesignVariable::set_t& s) const {
    s.insert(control[i].get());
    if (i + 1 < control.size()) s.insert(control[i + 1].get());
  }
};

// a curve that can be estimated
template <int N> struct OptSpline : Spline<N> { using Spline<N>::Spline; };

}  // namespace verif

namespace bsplines {
struct NsecTimePolicy { typedef sm::timing::NsecTime time_t; static time_t getOne() { return 1000000000; } };
template <int O, int D, typename P> struct EuclideanBSpline { typedef typename verif::Spline<D>::Conf CONF; typedef verif::Spline<D> TYPE; };
template <int O, typename P> struct UnitQuaternionBSpline { typedef verif::Spline<4>::Conf CONF; typedef verif::Spline<4> TYPE; };
template <typename S> struct BSplineFitter {
  template <class P> static void initUniformSpline(S& s, const std::vector<sm::timing::NsecTime>& t, const P& p, int segments, double lambda) {
    s.fit(t, p, segments, lambda);
  }
};
}  // namespace bsplines

namespace aslam { namespace splines {
template <typename C> struct OPTBSpline { typedef verif::OptSpline<C::dimension> BSpline; };
} }
#endif
