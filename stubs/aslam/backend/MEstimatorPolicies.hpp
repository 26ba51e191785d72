#ifndef VERIF_ASLAM_BACKEND_MESTIMATOR_HPP
#define VERIF_ASLAM_BACKEND_MESTIMATOR_HPP
#include <string>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
namespace aslam {
namespace backend {
class MEstimator {
 public:
  virtual ~MEstimator() {}
  virtual double getWeight(double error) const = 0;
  virtual std::string name() const { return "mestimator"; }
};
class NoMEstimator : public MEstimator {
 public:
  double getWeight(double) const { return 1.0; }
};
class BlakeZissermanMEstimator : public MEstimator {
 public:
  BlakeZissermanMEstimator(size_t = 1, double = 0.999, double = 0.1) {}
  double getWeight(double) const { return 1.0; }
};
}  // namespace backend
}  // namespace aslam
#endif
