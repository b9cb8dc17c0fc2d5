// Model of a ROS image message.
#pragma once
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <string>
#include <vector>
namespace std_msgs { struct Header { unsigned seq = 0; std::string frame_id; }; }
namespace sensor_msgs {
struct Image { std_msgs::Header header; unsigned height = 0, width = 0; std::string encoding; std::vector<unsigned char> data; };
typedef boost::shared_ptr<Image> ImagePtr; typedef boost::shared_ptr<const Image> ImageConstPtr;
namespace image_encodings { const std::string MONO8 = "mono8", MONO16 = "mono16", BGR8 = "bgr8", RGB8 = "rgb8"; }
}
