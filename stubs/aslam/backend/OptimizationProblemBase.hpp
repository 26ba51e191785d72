// Stand-in for aslam_backend's OptimizationProblemBase.  Like the original it
// brings in the containers and Eigen types its users rely on.
#ifndef VERIF_ASLAM_BACKEND_OPTIMIZATION_PROBLEM_BASE_HPP
#define VERIF_ASLAM_BACKEND_OPTIMIZATION_PROBLEM_BASE_HPP

#include <algorithm>
#include <cstddef>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include <Eigen/Core>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>

#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/ErrorTerm.hpp>
#include <aslam/backend/ScalarNonSquaredErrorTerm.hpp>

namespace aslam {
namespace backend {

class OptimizationProblemBase {
 public:
  OptimizationProblemBase() {}
  virtual ~OptimizationProblemBase() {}

  size_t numDesignVariables() const { return numDesignVariablesImplementation(); }
  DesignVariable* designVariable(size_t i) { return designVariableImplementation(i); }
  const DesignVariable* designVariable(size_t i) const { return designVariableImplementation(i); }
  size_t numErrorTerms() const { return numErrorTermsImplementation(); }
  ErrorTerm* errorTerm(size_t i) { return errorTermImplementation(i); }
  const ErrorTerm* errorTerm(size_t i) const { return errorTermImplementation(i); }
  size_t numNonSquaredErrorTerms() const { return numNonSquaredErrorTermsImplementation(); }
  ScalarNonSquaredErrorTerm* nonSquaredErrorTerm(size_t i) { return nonSquaredErrorTermImplementation(i); }
  const ScalarNonSquaredErrorTerm* nonSquaredErrorTerm(size_t i) const { return nonSquaredErrorTermImplementation(i); }
  void getErrors(const DesignVariable* dv, std::set<ErrorTerm*>& s) { getErrorsImplementation(dv, s); }
  void getNonSquaredErrors(const DesignVariable* dv, std::set<ScalarNonSquaredErrorTerm*>& s) { getNonSquaredErrorsImplementation(dv, s); }

 protected:
  virtual size_t numDesignVariablesImplementation() const = 0;
  virtual DesignVariable* designVariableImplementation(size_t i) = 0;
  virtual const DesignVariable* designVariableImplementation(size_t i) const = 0;
  virtual size_t numErrorTermsImplementation() const = 0;
  virtual ErrorTerm* errorTermImplementation(size_t i) = 0;
  virtual const ErrorTerm* errorTermImplementation(size_t i) const = 0;
  virtual size_t numNonSquaredErrorTermsImplementation() const = 0;
  virtual ScalarNonSquaredErrorTerm* nonSquaredErrorTermImplementation(size_t i) = 0;
  virtual const ScalarNonSquaredErrorTerm* nonSquaredErrorTermImplementation(size_t i) const = 0;
  virtual void getErrorsImplementation(const DesignVariable* dv, std::set<ErrorTerm*>& s) = 0;
  virtual void getNonSquaredErrorsImplementation(const DesignVariable* dv, std::set<ScalarNonSquaredErrorTerm*>& s) = 0;
};

}  // namespace backend
}  // namespace aslam
#endif
