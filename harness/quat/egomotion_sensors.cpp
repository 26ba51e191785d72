// The program's bestQuat under a name of its own.
#define aslam inEgomotion
#include "incremental_calibration_examples_egomotion_sensors/src/algo/bestQuat.cpp"
