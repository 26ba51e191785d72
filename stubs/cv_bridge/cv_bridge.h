#ifndef VERIF_CV_BRIDGE_H
#define VERIF_CV_BRIDGE_H
#include <sensor_msgs/Image.h>
namespace cv_bridge {
struct CvImage { std_msgs::Header header; std::string encoding; cv::Mat image; };
typedef boost::shared_ptr<CvImage> CvImagePtr;
inline CvImagePtr toCvCopy(const sensor_msgs::ImageConstPtr& m, const std::string& e = std::string()) { CvImagePtr p = boost::make_shared<CvImage>(); p->header = m->header; p->encoding = e; p->image = m->verif; return p; }
}
#endif
