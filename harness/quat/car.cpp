// The program's bestQuat under a name of its own.
#define aslam inCar
#include "incremental_calibration_examples_car/src/algo/bestQuat.cpp"
