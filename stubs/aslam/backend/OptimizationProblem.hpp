// Stand-in for aslam_backend's OptimizationProblem: a list of variables and one of error terms.
#ifndef VERIF_ASLAM_BACKEND_OPTIMIZATION_PROBLEM_HPP
#define VERIF_ASLAM_BACKEND_OPTIMIZATION_PROBLEM_HPP
#include <aslam/backend/OptimizationProblemBase.hpp>
namespace aslam { namespace backend {
class OptimizationProblem : public OptimizationProblemBase {
 public:
  void addDesignVariable(const boost::shared_ptr<DesignVariable>& d) { dvs.push_back(d); }
  void addErrorTerm(const boost::shared_ptr<ErrorTerm>& e) { ets.push_back(e); }
 protected:
  size_t numDesignVariablesImplementation() const override { return dvs.size(); }
  DesignVariable* designVariableImplementation(size_t i) override { return dvs.at(i).get(); }
  const DesignVariable* designVariableImplementation(size_t i) const override { return dvs.at(i).get(); }
  size_t numErrorTermsImplementation() const override { return ets.size(); }
  ErrorTerm* errorTermImplementation(size_t i) override { return ets.at(i).get(); }
  const ErrorTerm* errorTermImplementation(size_t i) const override { return ets.at(i).get(); }
  size_t numNonSquaredErrorTermsImplementation() const override { return 0; }
  ScalarNonSquaredErrorTerm* nonSquaredErrorTermImplementation(size_t) override { return nullptr; }
  const ScalarNonSquaredErrorTerm* nonSquaredErrorTermImplementation(size_t) const override { return nullptr; }
  void getErrorsImplementation(const DesignVariable* dv, std::set<ErrorTerm*>& s) override {
    for (auto& e : ets) for (size_t i = 0; i < e->numDesignVariables(); ++i) if (e->designVariable(i) == dv) s.insert(e.get());
  }
  void getNonSquaredErrorsImplementation(const DesignVariable*, std::set<ScalarNonSquaredErrorTerm*>&) override {}
 private:
  std::vector<boost::shared_ptr<DesignVariable> > dvs;
  std::vector<boost::shared_ptr<ErrorTerm> > ets;
};
} }
#endif
