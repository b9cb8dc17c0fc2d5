// Environment model of tf2: the harness answers lookups.
#pragma once
#include <geometry_msgs/TransformStamped.h>
#include <ros/ros.h>
#include <stdexcept>
namespace tf2 { class TransformException : public std::runtime_error { public: TransformException(const std::string& w) : std::runtime_error(w) {} }; class LookupException : public TransformException { public: using TransformException::TransformException; }; }
namespace ros { struct Time { double s; explicit Time(double v = 0) : s(v) {} static Time now() { return Time(1000); } }; struct Duration { double s; explicit Duration(double v = 0) : s(v) {} }; }
inline geometry_msgs::TransformStamped (*vp_lookup)(const std::string& target, const std::string& source, double time) = nullptr;
namespace tf2_ros {
class Buffer { public: geometry_msgs::TransformStamped lookupTransform(const std::string& t, const std::string& s, const ros::Time& at, const ros::Duration = ros::Duration(0)) const { return vp_lookup(t, s, at.s); } bool canTransform(const std::string& t, const std::string& s, const ros::Time& at, const ros::Duration = ros::Duration(0)) const { try { vp_lookup(t, s, at.s); return true; } catch (const tf2::TransformException&) { return false; } } };
class TransformListener { public: explicit TransformListener(Buffer&) {} };
}
