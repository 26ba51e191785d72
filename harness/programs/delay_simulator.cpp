#include "delay_recorder.hpp"
#define Calibrator VerifDelayCalibrator
#define simulate verifSimulate
#define main delay_simulator_main
#include <incremental_calibration_examples_time_delay/src/simulation/simulator.cpp>
