#ifndef VERIF_ASLAM_BACKEND_SNSET_HPP
#define VERIF_ASLAM_BACKEND_SNSET_HPP
namespace aslam { namespace backend {
class ScalarNonSquaredErrorTerm { public: virtual ~ScalarNonSquaredErrorTerm() {} };
} }
#endif
