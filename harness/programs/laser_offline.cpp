#define main laser_offline_main
#include <incremental_calibration_examples_2dlrf/src/2dlrf/simulate-offline.cpp>
