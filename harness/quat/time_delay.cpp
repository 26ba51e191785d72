// The program's bestQuat under a name of its own.
#define aslam inTimeDelay
#include "incremental_calibration_examples_time_delay/src/algo/bestQuat.cpp"
