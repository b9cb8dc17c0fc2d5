// Environment model of the ROS console: messages are formatted, then kept in vp_ros_log.
#pragma once
#include <cstdio>
#include <sstream>
#include <string>
inline std::string vp_ros_log;
#define VP_ROS_STREAM(x) do { std::stringstream vp_ros_ss; vp_ros_ss << x; vp_ros_log += vp_ros_ss.str() + "\n"; } while (0)
#define ROS_ERROR_STREAM(x) VP_ROS_STREAM(x)
#define ROS_WARN_STREAM(x) VP_ROS_STREAM(x)
#define ROS_INFO_STREAM(x) VP_ROS_STREAM(x)
#define ROS_DEBUG_STREAM(x) VP_ROS_STREAM(x)
#define VP_ROS_PRINTF(...) do { char vp_ros_b[256]; std::snprintf(vp_ros_b, sizeof vp_ros_b, __VA_ARGS__); } while (0)
#define ROS_ERROR(...) VP_ROS_PRINTF(__VA_ARGS__)
#define ROS_WARN(...) VP_ROS_PRINTF(__VA_ARGS__)
#define ROS_INFO(...) VP_ROS_PRINTF(__VA_ARGS__)
#define ROS_DEBUG(...) VP_ROS_PRINTF(__VA_ARGS__)
