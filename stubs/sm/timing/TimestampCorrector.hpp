// Stand-in for sm_timing's TimestampCorrector: what comes out depends on
// everything this corrector was given, in order.
#ifndef VERIF_SM_TIMESTAMP_CORRECTOR_HPP
#define VERIF_SM_TIMESTAMP_CORRECTOR_HPP
#include <cmath>
namespace sm { namespace timing {
template <typename T> class TimestampCorrector {
 public:
  typedef T time_t;
  T correctTimestamp(const T& remote, const T& local) {
    const T late = 1000 * n_ + 10 * std::fmod(std::fabs(remote), 97) + 0.25;
    ++n_;
    last_ = local - late;
    return last_;
  }
 private:
  int n_ = 0;
  T last_ = 0;
};
} }
#endif
