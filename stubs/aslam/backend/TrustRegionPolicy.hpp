#ifndef VERIF_ASLAM_BACKEND_TRP_HPP
#define VERIF_ASLAM_BACKEND_TRP_HPP
#include <string>
namespace aslam { namespace backend {
class TrustRegionPolicy {
 public:
  virtual ~TrustRegionPolicy() {}
  virtual bool requiresAugmentedDiagonal() const { return false; }
  virtual std::string name() const { return "trust region"; }
};
} }
#endif
