#ifndef VERIF_ASLAM_BACKEND_GN_HPP
#define VERIF_ASLAM_BACKEND_GN_HPP
#include <aslam/backend/TrustRegionPolicy.hpp>
namespace aslam { namespace backend {
class GaussNewtonTrustRegionPolicy : public TrustRegionPolicy {
 public:
  virtual std::string name() const { return "gauss_newton"; }
};
} }
#endif
