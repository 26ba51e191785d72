// Stand-in for aslam_backend_expressions: the same expressions, rotations
// perturbed as C' = (1 - phi x) C, each node kept as plain as possible.
#ifndef VERIF_EXPRESSIONS_HPP
#define VERIF_EXPRESSIONS_HPP

#include <cmath>
#include <cstdint>
#include <functional>
#include <limits>
#include <ostream>
#include <type_traits>

#include <Eigen/Core>
#include <Eigen/Dense>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>

#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/ErrorTerm.hpp>
#include <aslam/backend/JacobianContainer.hpp>
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/rotations.hpp>

namespace aslam {
namespace backend {

// ------------------------------------------------------ design variables
class EuclideanPoint : public DesignVariable {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  explicit EuclideanPoint(const Eigen::Vector3d& p) : p_(p), old_(p) {}
  const Eigen::Vector3d& toEuclidean() const { return p_; }
  using DesignVariable::getParameters;
 protected:
  void revertUpdateImplementation() { p_ = old_; }
  void updateImplementation(const double* d, int) { old_ = p_; p_ += Eigen::Vector3d(d[0], d[1], d[2]); }
  int minimalDimensionsImplementation() const { return 3; }
  void getParametersImplementation(Eigen::MatrixXd& v) const { v = p_; }
  void setParametersImplementation(const Eigen::MatrixXd& v) { old_ = p_; p_ = v; }
 private:
  Eigen::Vector3d p_, old_;
};

class RotationQuaternion : public DesignVariable {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  explicit RotationQuaternion(const Eigen::Vector4d& q) : q_(q), old_(q) {}
  explicit RotationQuaternion(const Eigen::Matrix3d& C) : q_(sm::kinematics::r2quat(C)), old_(q_) {}
  const Eigen::Vector4d& getQuaternion() const { return q_; }
  Eigen::Matrix3d toRotationMatrix() const { return sm::kinematics::quat2r(q_); }
 protected:
  void revertUpdateImplementation() { q_ = old_; }
  void updateImplementation(const double* d, int) {
    old_ = q_;
    q_ = sm::kinematics::qplus(sm::kinematics::qexp(Eigen::Vector3d(d[0], d[1], d[2])), q_);
  }
  int minimalDimensionsImplementation() const { return 3; }
  void getParametersImplementation(Eigen::MatrixXd& v) const { v = q_; }
  void setParametersImplementation(const Eigen::MatrixXd& v) { old_ = q_; q_ = v; }
 private:
  Eigen::Vector4d q_, old_;
};

class Scalar : public DesignVariable {
 public:
  explicit Scalar(double p) : p_(p), old_(p) {}
  double toScalar() const { return p_; }
  using DesignVariable::getParameters;
  Eigen::MatrixXd getParameters() const { return Eigen::MatrixXd::Constant(1, 1, p_); }
 protected:
  void revertUpdateImplementation() { p_ = old_; }
  void updateImplementation(const double* d, int) { old_ = p_; p_ += d[0]; }
  int minimalDimensionsImplementation() const { return 1; }
  void getParametersImplementation(Eigen::MatrixXd& v) const { v = Eigen::MatrixXd::Constant(1, 1, p_); }
  void setParametersImplementation(const Eigen::MatrixXd& v) { old_ = p_; p_ = v(0, 0); }
 private:
  double p_, old_;
};

template <typename I, std::uintmax_t D>
class FixedPointNumber {
 public:
  typedef I Integer;
  FixedPointNumber(I n = 0) : n_(n) {}
  I getNumerator() const { return n_; }
  static constexpr std::uintmax_t getDivider() { return D; }
  explicit operator double() const { return (double)n_ / (double)D; }
  FixedPointNumber operator+(const FixedPointNumber& o) const { return n_ + o.n_; }
  FixedPointNumber operator-(const FixedPointNumber& o) const { return n_ - o.n_; }
 private:
  I n_;
};

template <typename S> class GenericScalarExpression;

template <typename S>
class GenericScalar : public DesignVariable {
 public:
  typedef GenericScalarExpression<S> Expression;
  explicit GenericScalar(const S& s) : s_(s), old_(s) {}
  const S& getValue() const { return s_; }
  const S& toScalar() const { return s_; }
  Expression toExpression() { return Expression(this); }
  using DesignVariable::getParameters;
  Eigen::MatrixXd getParameters() const { return Eigen::MatrixXd::Constant(1, 1, (double)s_); }
 protected:
  void revertUpdateImplementation() { s_ = old_; }
  void updateImplementation(const double* d, int) { old_ = s_; s_ = S(s_.getNumerator() + (typename S::Integer)std::llround(d[0] * S::getDivider())); }
  int minimalDimensionsImplementation() const { return 1; }
  void getParametersImplementation(Eigen::MatrixXd& v) const { v = getParameters(); }
  void setParametersImplementation(const Eigen::MatrixXd& v) { old_ = s_; s_ = S((typename S::Integer)std::llround(v(0, 0) * S::getDivider())); }
 private:
  S s_, old_;
};

// ------------------------------------------------------------- expressions
struct VerifVec3 {
  virtual ~VerifVec3() {}
  virtual Eigen::Vector3d value() const = 0;
  virtual void jac(JacobianContainer&, const Eigen::MatrixXd& chain) const = 0;
  virtual void dvs(DesignVariable::set_t&) const = 0;
};
struct VerifRot {
  virtual ~VerifRot() {}
  virtual Eigen::Matrix3d value() const = 0;
  virtual void jac(JacobianContainer&, const Eigen::MatrixXd& chain) const = 0;
  virtual void dvs(DesignVariable::set_t&) const = 0;
};
struct VerifScalar {
  virtual ~VerifScalar() {}
  virtual double value() const = 0;
  virtual void jac(JacobianContainer&, const Eigen::MatrixXd& chain) const = 0;
  virtual void dvs(DesignVariable::set_t&) const = 0;
};
typedef boost::shared_ptr<VerifVec3> VerifVec3P;
typedef boost::shared_ptr<VerifRot> VerifRotP;
typedef boost::shared_ptr<VerifScalar> VerifScalarP;

// N-vectors computed from several design variables, derived numerically
template <int N>
class VectorExpression {
 public:
  typedef Eigen::Matrix<double, N, 1> value_t;
  VectorExpression(const std::function<value_t()>& f, const DesignVariable::set_t& dvs) : f_(f), dvs_(dvs) {}
  value_t toValue() const { return f_(); }
  value_t evaluate() const { return f_(); }
  void getDesignVariables(DesignVariable::set_t& s) const { s.insert(dvs_.begin(), dvs_.end()); }
  // g: what is derived; chain: applied on the left
  template <class G> void numeric(JacobianContainer& J, const Eigen::MatrixXd& chain, const G& g) const {
    for (DesignVariable* dv : dvs_) {
      if (!dv->isActive()) continue;
      const int n = dv->minimalDimensions();
      Eigen::MatrixXd D(chain.cols(), n);
      for (int k = 0; k < n; ++k) {
        const double h = 1e-6;
        Eigen::VectorXd d = Eigen::VectorXd::Zero(n);
        d(k) = h; dv->update(d.data(), n);
        const value_t up = f_();
        dv->revertUpdate();
        d(k) = -h; dv->update(d.data(), n);
        const value_t down = f_();
        dv->revertUpdate();
        D.col(k) = g(up, down) / (2 * h);
      }
      J.add(dv, Eigen::MatrixXd(chain * D));
    }
  }
 private:
  std::function<value_t()> f_;
  DesignVariable::set_t dvs_;
};

class ScalarExpression {
 public:
  ScalarExpression(double v = 0) : n_(boost::make_shared<Const>(v)) {}
  ScalarExpression(Scalar* s) : n_(boost::make_shared<Var>(s)) {}
  ScalarExpression(const boost::shared_ptr<Scalar>& s) : n_(boost::make_shared<Var>(s.get())) {}
  double toScalar() const { return n_->value(); }
  double toValue() const { return n_->value(); }
  void getDesignVariables(DesignVariable::set_t& s) const { n_->dvs(s); }
  void evaluateJacobians(JacobianContainer& J) const { n_->jac(J, Eigen::MatrixXd::Identity(1, 1)); }
  template <class M> void evaluateJacobians(JacobianContainer& J, const Eigen::MatrixBase<M>& chain) const { n_->jac(J, chain); }
  const VerifScalarP& node() const { return n_; }
 private:
  struct Const : VerifScalar {
    explicit Const(double v) : v(v) {}
    double value() const { return v; }
    void jac(JacobianContainer&, const Eigen::MatrixXd&) const {}
    void dvs(DesignVariable::set_t&) const {}
    double v;
  };
  struct Var : VerifScalar {
    explicit Var(Scalar* s) : s(s) {}
    double value() const { return s->toScalar(); }
    void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const { J.add(s, c); }
    void dvs(DesignVariable::set_t& d) const { d.insert(s); }
    Scalar* s;
  };
  VerifScalarP n_;
};

template <typename S>
class GenericScalarExpression {
 public:
  GenericScalarExpression(const S& s) : base_(s) {}
  GenericScalarExpression(typename S::Integer s) : base_(S(s)) {}
  explicit GenericScalarExpression(GenericScalar<S>* dv) : base_(0), dv_(dv), sign_(1) {}
  S toScalar() const { return dv_ ? (sign_ > 0 ? base_ + dv_->toScalar() : base_ - dv_->toScalar()) : base_; }
  S toValue() const { return toScalar(); }
  void getDesignVariables(DesignVariable::set_t& s) const { if (dv_) s.insert(dv_); }
  GenericScalarExpression operator+(const GenericScalarExpression& o) const { return combine(o, 1); }
  GenericScalarExpression operator-(const GenericScalarExpression& o) const { return combine(o, -1); }
 private:
  GenericScalarExpression combine(const GenericScalarExpression& o, int sign) const {
    if (dv_ && o.dv_) throw std::runtime_error("GenericScalarExpression: two design variables");
    GenericScalarExpression r(sign > 0 ? base_ + o.base_ : base_ - o.base_);
    r.dv_ = dv_ ? dv_ : o.dv_;
    r.sign_ = dv_ ? sign_ : sign * o.sign_;
    return r;
  }
  S base_;
  GenericScalar<S>* dv_ = nullptr;
  int sign_ = 1;
};

class EuclideanExpression {
 public:
  EuclideanExpression(const VerifVec3P& n = VerifVec3P()) : n_(n) {}
  EuclideanExpression(EuclideanPoint* p) : n_(boost::make_shared<Var>(p)) {}
  EuclideanExpression(const boost::shared_ptr<EuclideanPoint>& p) : n_(boost::make_shared<Var>(p.get())) {}
  EuclideanExpression(const Eigen::Vector3d& v) : n_(boost::make_shared<Const>(v)) {}
  EuclideanExpression(const VectorExpression<3>& v) : n_(boost::make_shared<Vec>(v)) {}
  Eigen::Vector3d toValue() const { return n_->value(); }
  Eigen::Vector3d toEuclidean() const { return n_->value(); }
  void getDesignVariables(DesignVariable::set_t& s) const { n_->dvs(s); }
  void evaluateJacobians(JacobianContainer& J) const { n_->jac(J, Eigen::Matrix3d::Identity()); }
  template <class M> void evaluateJacobians(JacobianContainer& J, const Eigen::MatrixBase<M>& chain) const { n_->jac(J, chain); }
  EuclideanExpression operator+(const EuclideanExpression& o) const { return VerifVec3P(boost::make_shared<Sum>(n_, o.n_, 1.0)); }
  EuclideanExpression operator-(const EuclideanExpression& o) const { return VerifVec3P(boost::make_shared<Sum>(n_, o.n_, -1.0)); }
  EuclideanExpression operator-() const { return VerifVec3P(boost::make_shared<Sum>(EuclideanExpression(Eigen::Vector3d(Eigen::Vector3d::Zero())).n_, n_, -1.0)); }
  EuclideanExpression operator*(const ScalarExpression& s) const { return VerifVec3P(boost::make_shared<Scaled>(n_, s.node())); }
  EuclideanExpression cross(const EuclideanExpression& o) const { return VerifVec3P(boost::make_shared<Cross>(n_, o.n_)); }
  const VerifVec3P& node() const { return n_; }
 private:
  struct Const : VerifVec3 {
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    explicit Const(const Eigen::Vector3d& v) : v(v) {}
    Eigen::Vector3d value() const { return v; }
    void jac(JacobianContainer&, const Eigen::MatrixXd&) const {}
    void dvs(DesignVariable::set_t&) const {}
    Eigen::Vector3d v;
  };
  struct Var : VerifVec3 {
    explicit Var(EuclideanPoint* p) : p(p) {}
    Eigen::Vector3d value() const { return p->toEuclidean(); }
    void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const { J.add(p, c); }
    void dvs(DesignVariable::set_t& d) const { d.insert(p); }
    EuclideanPoint* p;
  };
  struct Vec : VerifVec3 {
    explicit Vec(const VectorExpression<3>& v) : v(v) {}
    Eigen::Vector3d value() const { return v.toValue(); }
    void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const { v.numeric(J, c, [](const Eigen::Vector3d& a, const Eigen::Vector3d& b) { return Eigen::Vector3d(a - b); }); }
    void dvs(DesignVariable::set_t& d) const { v.getDesignVariables(d); }
    VectorExpression<3> v;
  };
  struct Sum : VerifVec3 {
    Sum(const VerifVec3P& a, const VerifVec3P& b, double s) : a(a), b(b), s(s) {}
    Eigen::Vector3d value() const { return a->value() + s * b->value(); }
    void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const { a->jac(J, c); b->jac(J, s * c); }
    void dvs(DesignVariable::set_t& d) const { a->dvs(d); b->dvs(d); }
    VerifVec3P a, b; double s;
  };
  struct Scaled : VerifVec3 {
    Scaled(const VerifVec3P& a, const VerifScalarP& s) : a(a), s(s) {}
    Eigen::Vector3d value() const { return a->value() * s->value(); }
    void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const { a->jac(J, c * s->value()); s->jac(J, c * a->value()); }
    void dvs(DesignVariable::set_t& d) const { a->dvs(d); s->dvs(d); }
    VerifVec3P a; VerifScalarP s;
  };
  struct Cross : VerifVec3 {
    Cross(const VerifVec3P& a, const VerifVec3P& b) : a(a), b(b) {}
    Eigen::Vector3d value() const { return a->value().cross(b->value()); }
    void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const {
      a->jac(J, -c * sm::kinematics::crossMx(b->value()));
      b->jac(J, c * sm::kinematics::crossMx(a->value()));
    }
    void dvs(DesignVariable::set_t& d) const { a->dvs(d); b->dvs(d); }
    VerifVec3P a, b;
  };
  VerifVec3P n_;
};

class RotationExpression {
 public:
  RotationExpression(const VerifRotP& n = VerifRotP()) : n_(n) {}
  RotationExpression(RotationQuaternion* q) : n_(boost::make_shared<Var>(q)) {}
  RotationExpression(const boost::shared_ptr<RotationQuaternion>& q) : n_(boost::make_shared<Var>(q.get())) {}
  Eigen::Matrix3d toRotationMatrix() const { return n_->value(); }
  void getDesignVariables(DesignVariable::set_t& s) const { n_->dvs(s); }
  void evaluateJacobians(JacobianContainer& J) const { n_->jac(J, Eigen::Matrix3d::Identity()); }
  template <class M> void evaluateJacobians(JacobianContainer& J, const Eigen::MatrixBase<M>& chain) const { n_->jac(J, chain); }
  RotationExpression inverse() const { return VerifRotP(boost::make_shared<Inverse>(n_)); }
  RotationExpression operator*(const RotationExpression& o) const { return VerifRotP(boost::make_shared<Product>(n_, o.n_)); }
  EuclideanExpression operator*(const EuclideanExpression& p) const { return VerifVec3P(boost::make_shared<Rotated>(n_, p.node())); }
  const VerifRotP& node() const { return n_; }
 private:
  struct Var : VerifRot {
    explicit Var(RotationQuaternion* q) : q(q) {}
    Eigen::Matrix3d value() const { return q->toRotationMatrix(); }
    void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const { J.add(q, c); }
    void dvs(DesignVariable::set_t& d) const { d.insert(q); }
    RotationQuaternion* q;
  };
  struct Inverse : VerifRot {
    explicit Inverse(const VerifRotP& a) : a(a) {}
    Eigen::Matrix3d value() const { return a->value().transpose(); }
    void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const { a->jac(J, -c * a->value().transpose()); }
    void dvs(DesignVariable::set_t& d) const { a->dvs(d); }
    VerifRotP a;
  };
  struct Product : VerifRot {
    Product(const VerifRotP& a, const VerifRotP& b) : a(a), b(b) {}
    Eigen::Matrix3d value() const { return a->value() * b->value(); }
    void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const { a->jac(J, c); b->jac(J, c * a->value()); }
    void dvs(DesignVariable::set_t& d) const { a->dvs(d); b->dvs(d); }
    VerifRotP a, b;
  };
  struct Rotated : VerifVec3 {
    Rotated(const VerifRotP& a, const VerifVec3P& p) : a(a), p(p) {}
    Eigen::Vector3d value() const { return a->value() * p->value(); }
    void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const {
      a->jac(J, c * sm::kinematics::crossMx(Eigen::Vector3d(a->value() * p->value())));
      p->jac(J, c * a->value());
    }
    void dvs(DesignVariable::set_t& d) const { a->dvs(d); p->dvs(d); }
    VerifRotP a; VerifVec3P p;
  };
  VerifRotP n_;
};

struct Vector2RotationQuaternionExpressionAdapter {
  static RotationExpression adapt(const VectorExpression<4>& q) { return VerifRotP(boost::make_shared<Node>(q)); }
 private:
  struct Node : VerifRot {
    explicit Node(const VectorExpression<4>& q) : q(q) {}
    Eigen::Matrix3d value() const { return sm::kinematics::quat2r(q.toValue()); }
    void jac(JacobianContainer& J, const Eigen::MatrixXd& c) const {
      q.numeric(J, c, [](const Eigen::Vector4d& a, const Eigen::Vector4d& b) {
        // C(a) C(b)' = 1 - phi x
        const Eigen::Vector4d d = sm::kinematics::qplus(a, sm::kinematics::quatInv(b));
        return Eigen::Vector3d(2 * d.head<3>() * (d(3) < 0 ? -1 : 1));
      });
    }
    void dvs(DesignVariable::set_t& d) const { q.getDesignVariables(d); }
    VectorExpression<4> q;
  };
};

// chain [rho phi]: t' = t + rho + phi-part as in the transformation's own
// perturbation T' = [1 - phi x, rho; 0 1] T
class TransformationExpression {
 public:
  TransformationExpression() {}
  TransformationExpression(const RotationExpression& R, const EuclideanExpression& t) : R_(R), t_(t), some_(true) {}
  Eigen::Matrix4d toTransformationMatrix() const { return sm::kinematics::rt2Transform(R_.toRotationMatrix(), t_.toValue()); }
  TransformationExpression inverse() const {
    const RotationExpression Ri = R_.inverse();
    return TransformationExpression(Ri, -(Ri * t_));
  }
  TransformationExpression operator*(const TransformationExpression& o) const { return TransformationExpression(R_ * o.R_, t_ + R_ * o.t_); }
  bool root() const { return some_; }
  void getDesignVariables(DesignVariable::set_t& s) const { R_.getDesignVariables(s); t_.getDesignVariables(s); }
  void evaluateJacobians(JacobianContainer& J) const { evaluateJacobians(J, Eigen::Matrix<double, 6, 6>(Eigen::Matrix<double, 6, 6>::Identity())); }
  template <class M> void evaluateJacobians(JacobianContainer& J, const Eigen::MatrixBase<M>& c) const {
    const Eigen::MatrixXd chain = c;
    t_.evaluateJacobians(J, Eigen::MatrixXd(chain.leftCols(3)));
    R_.evaluateJacobians(J, Eigen::MatrixXd(chain.rightCols(3) - chain.leftCols(3) * sm::kinematics::crossMx(t_.toValue())));
  }
  const RotationExpression& rotation() const { return R_; }
  const EuclideanExpression& translation() const { return t_; }
 private:
  RotationExpression R_;
  EuclideanExpression t_;
  bool some_ = false;
};

class ErrorTermTransformation : public ErrorTermFs<6> {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  typedef Eigen::Matrix<double, 6, 6> Covariance;
  ErrorTermTransformation(const TransformationExpression& T, const sm::kinematics::Transformation& prior, const Covariance& N)
      : T_(T), prior_(prior), N_(N) {
    setInvR(N.inverse());
    DesignVariable::set_t dv;
    T_.getDesignVariables(dv);
    setDesignVariablesIterator(dv.begin(), dv.end());
  }
  const TransformationExpression& expression() const { return T_; }
  const sm::kinematics::Transformation& prior() const { return prior_; }
  const Covariance& covariance() const { return N_; }
 protected:
  double evaluateErrorImplementation() {
    const sm::kinematics::Transformation d = prior_ * sm::kinematics::Transformation(T_.toTransformationMatrix()).inverse();
    error_t e;
    e.head<3>() = d.t();
    e.tail<3>() = 2 * d.q().head<3>() * (d.q()(3) < 0 ? -1 : 1);
    setError(e);
    return evaluateChiSquaredError();
  }
  void evaluateJacobiansImplementation(JacobianContainer& J) {
    DesignVariable::set_t dv;
    T_.getDesignVariables(dv);
    const error_t keep = error();
    for (DesignVariable* v : dv) {
      if (!v->isActive()) continue;
      const int n = v->minimalDimensions();
      Eigen::MatrixXd D(6, n);
      for (int k = 0; k < n; ++k) {
        const double h = 1e-6;
        Eigen::VectorXd d = Eigen::VectorXd::Zero(n);
        d(k) = h; v->update(d.data(), n); evaluateErrorImplementation(); const error_t up = error(); v->revertUpdate();
        d(k) = -h; v->update(d.data(), n); evaluateErrorImplementation(); const error_t down = error(); v->revertUpdate();
        D.col(k) = (up - down) / (2 * h);
      }
      J.add(v, D);
    }
    setError(keep);
  }
 private:
  TransformationExpression T_;
  sm::kinematics::Transformation prior_;
  Covariance N_;
};

}  // namespace backend
}  // namespace aslam
#endif
