#include "ego_recorder.hpp"
#define Calibrator VerifEgoCalibrator
#define simulate verifSimulate
#define main ego_simulator_main
#include <incremental_calibration_examples_egomotion_sensors/src/simulation/simulator.cpp>
