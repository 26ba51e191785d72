#include "camera_recorder.hpp"
#define CameraValidator VerifCameraValidator
#define main camera_validate_main
#include <incremental_calibration_examples_camera/src/camera/validateCamera.cpp>
