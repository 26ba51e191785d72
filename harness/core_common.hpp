// Design variables and error terms whose every use by the code under test is
// visible, for the harnesses of the problem containers and of the estimator.
#pragma once

#include <algorithm>
#include <array>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <Eigen/Core>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/weak_ptr.hpp>

#include <mc.hpp>

#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/ErrorTerm.hpp>
#include <aslam/backend/OptimizationProblemBase.hpp>

namespace core {

class TestDV : public aslam::backend::DesignVariable {
 public:
  TestDV(int id, int dim, bool active = true) : id(id), value(Eigen::VectorXd::Zero(dim)) {
    for (int i = 0; i < dim; ++i) value(i) = 10 * id + i;
    setActive(active);
  }
  int id;
  Eigen::VectorXd value, previous;
  int writes = 0;
  bool dead = false;
  void touch() const { if (dead) throw ::mc::Violation{"design variable " + std::to_string(id) + " is accessed after it ceased to exist (nothing holds it any more)"}; }

 protected:
  virtual void revertUpdateImplementation() { touch(); value = previous; ++writes; }
  virtual void updateImplementation(const double* dp, int size) {
    touch();
    previous = value;
    for (int i = 0; i < size; ++i) value(i) += dp[i];
    ++writes;
  }
  virtual int minimalDimensionsImplementation() const { return (int)value.size(); }
  virtual void getParametersImplementation(Eigen::MatrixXd& v) const { touch(); v = value; }
  virtual void setParametersImplementation(const Eigen::MatrixXd& v) { touch(); value = v; ++writes; }
};
typedef boost::shared_ptr<TestDV> TestDVSP;

// error_r = sum over its variables and their components of
// w * (x + x^2/8) - r, so that the Jacobian depends on the values
class TestET : public aslam::backend::ErrorTerm {
 public:
  TestET(int id, int dim, const std::vector<aslam::backend::DesignVariable*>& dvs) : aslam::backend::ErrorTerm(dim), id(id) {
    setDesignVariables(dvs);
  }
  int id;
  double weight(size_t k, int c, int r) const { return 1.0 + 0.5 * id + 0.25 * k + 2.0 * c + 4.0 * r; }
  Eigen::VectorXd residual() const {
    Eigen::VectorXd e = Eigen::VectorXd::Zero(dimension());
    for (size_t k = 0; k < numDesignVariables(); ++k) {
      const TestDV* d = static_cast<const TestDV*>(designVariable(k));
      for (int c = 0; c < d->value.size(); ++c)
        for (int r = 0; r < e.size(); ++r) e(r) += weight(k, c, r) * (d->value(c) + d->value(c) * d->value(c) / 8) - r;
    }
    return e;
  }
  Eigen::MatrixXd jacobian(size_t k) const {
    const TestDV* d = static_cast<const TestDV*>(designVariable(k));
    Eigen::MatrixXd J(dimension(), d->value.size());
    for (int c = 0; c < d->value.size(); ++c)
      for (int r = 0; r < J.rows(); ++r) J(r, c) = weight(k, c, r) * (1 + d->value(c) / 4);
    return J;
  }

 protected:
  virtual double evaluateErrorImplementation() { return residual().squaredNorm(); }
  virtual void evaluateJacobiansImplementation(aslam::backend::JacobianContainer& J) {
    for (size_t k = 0; k < numDesignVariables(); ++k) J.add(designVariable(k), jacobian(k));
  }
  virtual Eigen::VectorXd vsErrorImplementation() const { return residual(); }
};
typedef boost::shared_ptr<TestET> TestETSP;

inline int dvId(const aslam::backend::DesignVariable* d) { return d ? static_cast<const TestDV*>(d)->id : -1; }
inline int etId(const aslam::backend::ErrorTerm* e) { return e ? static_cast<const TestET*>(e)->id : -1; }

template <class It> std::string join(It b, It e, const char* sep = ",") {
  std::ostringstream os;
  for (It i = b; i != e; ++i) os << (i == b ? "" : sep) << *i;
  return os.str();
}
template <class C> std::string join(const C& c, const char* sep = ",") { return join(c.begin(), c.end(), sep); }

// what a call did
enum Result { Done, Refused };
template <class F> Result attempt(F f, std::string* what = nullptr) {
  try { f(); return Done; }
  catch (const std::exception& e) { if (what) *what = e.what(); return Refused; }
}

template <class T> std::vector<std::vector<T>> permutationsOf(std::vector<T> v) {
  std::sort(v.begin(), v.end());
  std::vector<std::vector<T>> r;
  do r.push_back(v); while (std::next_permutation(v.begin(), v.end()));
  return r;
}

}  // namespace core
