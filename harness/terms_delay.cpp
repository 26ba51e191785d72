// J01: error terms of the time delay package.
#include <terms_vehicle.hpp>
#include <aslam/calibration/time-delay/error-terms/ErrorTermPose.h>
#include <aslam/calibration/time-delay/error-terms/ErrorTermWheel.h>
using namespace aslam::calibration;
using namespace terms;
namespace { VEHICLE_TERMS("time-delay") }
MC_MAIN
