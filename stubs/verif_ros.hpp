// Stand-in for rosbag and the messages: a bag is what the harness put there.
#ifndef VERIF_ROS_HPP
#define VERIF_ROS_HPP
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
#include <boost/any.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>

namespace ros {
struct Time {
  int64_t ns = 0;
  Time() {}
  explicit Time(int64_t n) : ns(n) {}
  uint64_t toNSec() const { return (uint64_t)ns; }
  double toSec() const { return (double)(ns / 1000000000) + 1e-9 * (double)(ns % 1000000000); }
};
}
namespace std_msgs { struct Header { uint32_t seq = 0; ros::Time stamp; std::string frame_id; }; }

namespace verif {
struct BagMessage { std::string topic; ros::Time time; boost::any content; };
inline std::map<std::string, std::vector<BagMessage> >& bags() { static std::map<std::string, std::vector<BagMessage> > b; return b; }
}

namespace rosbag {
class Bag {
 public:
  explicit Bag(const std::string& file) {
    auto it = verif::bags().find(file);
    if (it == verif::bags().end()) throw std::runtime_error("no bag " + file);
    messages = it->second;
  }
  std::vector<verif::BagMessage> messages;
};
class MessageInstance {
 public:
  explicit MessageInstance(const verif::BagMessage& m) : m_(m) {}
  const std::string& getTopic() const { return m_.topic; }
  const ros::Time& getTime() const { return m_.time; }
  // of another type: nothing
  template <class T> boost::shared_ptr<T> instantiate() const {
    const T* t = boost::any_cast<T>(&m_.content);
    return t ? boost::make_shared<T>(*t) : boost::shared_ptr<T>();
  }
 private:
  verif::BagMessage m_;
};
struct TopicQuery {
  std::vector<std::string> topics;
  explicit TopicQuery(const std::string& t) : topics(1, t) {}
  explicit TopicQuery(const std::vector<std::string>& t) : topics(t) {}
};
class View {
 public:
  typedef std::vector<MessageInstance>::const_iterator iterator;
  typedef iterator const_iterator;
  explicit View(const Bag& b) { for (auto& m : b.messages) v_.push_back(MessageInstance(m)); }
  View(const Bag& b, const TopicQuery& q) { for (auto& m : b.messages) if (std::count(q.topics.begin(), q.topics.end(), m.topic)) v_.push_back(MessageInstance(m)); }
  iterator begin() const { return v_.begin(); }
  iterator end() const { return v_.end(); }
  uint32_t size() const { return (uint32_t)v_.size(); }
  ros::Time getBeginTime() const { return v_.empty() ? ros::Time() : v_.front().getTime(); }
  ros::Time getEndTime() const { return v_.empty() ? ros::Time() : v_.back().getTime(); }
 private:
  std::vector<MessageInstance> v_;
};
}

#define VERIF_MESSAGE(NAME) typedef boost::shared_ptr<NAME> NAME##Ptr; typedef boost::shared_ptr<const NAME> NAME##ConstPtr;
namespace poslv {
struct TimeDistance { double time1 = 0, time2 = 0, distanceTag = 0; uint8_t timeType = 0, distanceType = 0; };
struct VehicleNavigationSolutionMsg {
  std_msgs::Header header; TimeDistance timeDistance;
  double latitude = 0, longitude = 0, altitude = 0; float northVelocity = 0, eastVelocity = 0, downVelocity = 0;
  double roll = 0, pitch = 0, heading = 0, wander = 0; float trackAngle = 0, speed = 0, angularRateLong = 0, angularRateTrans = 0, angularRateDown = 0, accLong = 0, accTrans = 0, accDown = 0;
};
VERIF_MESSAGE(VehicleNavigationSolutionMsg)
struct VehicleNavigationPerformanceMsg {
  std_msgs::Header header; TimeDistance timeDistance;
  float northPositionRMSError = 0, eastPositionRMSError = 0, downPositionRMSError = 0, northVelocityRMSError = 0, eastVelocityRMSError = 0, downVelocityRMSError = 0, rollRMSError = 0, pitchRMSError = 0, headingRMSError = 0;
};
VERIF_MESSAGE(VehicleNavigationPerformanceMsg)
struct TimeTaggedDMIDataMsg { std_msgs::Header header; TimeDistance timeDistance; double signedDistanceTraveled = 0, unsignedDistanceTraveled = 0; };
VERIF_MESSAGE(TimeTaggedDMIDataMsg)
}
namespace can_prius {
struct FrontWheelsSpeedMsg { std_msgs::Header header; uint16_t Right = 0, Left = 0; };
VERIF_MESSAGE(FrontWheelsSpeedMsg)
struct RearWheelsSpeedMsg { std_msgs::Header header; uint16_t Right = 0, Left = 0; };
VERIF_MESSAGE(RearWheelsSpeedMsg)
struct Steering1Msg { std_msgs::Header header; int16_t value = 0; };
VERIF_MESSAGE(Steering1Msg)
}
#endif
