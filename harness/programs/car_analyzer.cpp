#include "car_recorder.hpp"
#define CarCalibrator VerifCarCalibrator
#define main car_analyzer_main
#include <incremental_calibration_examples_car/src/realworld/analyzer.cpp>
