// Poses of the calibration harnesses.  Symbolic build: a rotation vector is an opaque triple naming a rotation matrix
// built from a unit quaternion (contracts of poseEigenToCal / poseCalToEigen / AngleAxisRotatePoint, which C02 and C03
// decide on the real code).  Native build: the real functions.
#pragma once
#include <rct_optimizations/types.h>
#include <string>
#include "vp.h"
namespace vpr {
Eigen::Isometry3d pose(const std::string& name);                         // arbitrary rigid pose
void pose_block(const std::string& name, double* block);                 // arbitrary pose written in Pose6d layout
Eigen::Matrix3d quat(const std::string& name);
Eigen::Vector3d apply(const Eigen::Isometry3d& T,const Eigen::Vector3d& p);   // T*p; with VP_ABS_ROT rotated points are uninterpreted
}
