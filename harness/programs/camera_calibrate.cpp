#include "camera_recorder.hpp"
#define CameraCalibrator VerifCameraCalibrator
#define main camera_calibrate_main
#include <incremental_calibration_examples_camera/src/camera/calibrateCamera.cpp>
