// Environment model of image_transport: the harness delivers images and sees what is published.
#pragma once
#include <functional>
#include <map>
#include <string>
#include <ros/ros.h>
#include <sensor_msgs/Image.h>
inline std::map<std::string, std::function<void(const sensor_msgs::ImageConstPtr&)>> vp_subscribed;
inline std::vector<std::pair<std::string, sensor_msgs::Image>> vp_published;
namespace image_transport {
class Subscriber {};
class Publisher { public: std::string topic; void publish(const sensor_msgs::ImageConstPtr& m) const { vp_published.push_back({topic, *m}); } void publish(const sensor_msgs::Image& m) const { vp_published.push_back({topic, m}); } };
class ImageTransport { public: ImageTransport(const ros::NodeHandle&) {}
  template <class T> Subscriber subscribe(const std::string& t, unsigned, void (T::*f)(const sensor_msgs::ImageConstPtr&), T* o) { vp_subscribed[t] = [=](const sensor_msgs::ImageConstPtr& m) { (o->*f)(m); }; return {}; }
  Publisher advertise(const std::string& t, unsigned, bool = false) { Publisher p; p.topic = t; return p; } };
}
