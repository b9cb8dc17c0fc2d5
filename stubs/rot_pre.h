#pragma once
#include <ceres/rotation.h>
namespace ceres { template<> void AngleAxisRotatePoint<double>(const double*,const double*,double*); }
