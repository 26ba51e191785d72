#ifndef VERIF_SM_NSEC_TIME_HPP
#define VERIF_SM_NSEC_TIME_HPP
#include <cmath>
#include <cstdint>
#include <boost/cstdint.hpp>
namespace sm { namespace timing {
typedef boost::int64_t NsecTime;
inline double nsecToSec(NsecTime t) { return (double)t / 1e9; }
inline NsecTime secToNsec(double s) { return (NsecTime)std::llround(s * 1e9); }
} }
#endif
