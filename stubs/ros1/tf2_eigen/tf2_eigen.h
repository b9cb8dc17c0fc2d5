#pragma once
#include <Eigen/Geometry>
#include <geometry_msgs/TransformStamped.h>
namespace tf2 {
inline Eigen::Isometry3d transformToEigen(const geometry_msgs::Transform& t) { return Eigen::Isometry3d(Eigen::Translation3d(t.translation.x, t.translation.y, t.translation.z) * Eigen::Quaterniond(t.rotation.w, t.rotation.x, t.rotation.y, t.rotation.z)); }
inline Eigen::Isometry3d transformToEigen(const geometry_msgs::TransformStamped& t) { return transformToEigen(t.transform); }
}
