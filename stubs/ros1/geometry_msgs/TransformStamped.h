// Model of a ROS message.
#pragma once
#include <string>
namespace geometry_msgs {
struct Vector3 { double x = 0, y = 0, z = 0; };
struct Quaternion { double x = 0, y = 0, z = 0, w = 0; };
struct Transform { Vector3 translation; Quaternion rotation; };
struct TransformStamped { std::string child_frame_id; Transform transform; };
}
