#ifndef VERIF_SENSOR_MSGS_IMAGE_H
#define VERIF_SENSOR_MSGS_IMAGE_H
#include <verif_camera.hpp>
#include <verif_ros.hpp>
namespace sensor_msgs { struct Image { std_msgs::Header header; cv::Mat verif; }; VERIF_MESSAGE(Image) }
#endif
