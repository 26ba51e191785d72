#define main laser_online_new_main
#include <incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online-new.cpp>
