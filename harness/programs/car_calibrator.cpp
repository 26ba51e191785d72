#include "car_recorder.hpp"
#define CarCalibrator VerifCarCalibrator
#define main car_calibrator_main
#include <incremental_calibration_examples_car/src/realworld/calibrator.cpp>
