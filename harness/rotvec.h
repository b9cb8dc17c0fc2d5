// Rotation vectors of arbitrary rotations: angle 2*atan2(|v|,w) along v for an arbitrary unit quaternion (w,v).
#pragma once
#include "vp.h"
#include <Eigen/Dense>
#include <cmath>
#include <string>
inline Eigen::Matrix3d quat_matrix(const double* q){ double w=q[0],x=q[1],y=q[2],z=q[3]; Eigen::Matrix3d R;
  R<<1-2*(y*y+z*z),2*(x*y-w*z),2*(x*z+w*y), 2*(x*y+w*z),1-2*(x*x+z*z),2*(y*z-w*x), 2*(x*z-w*y),2*(y*z+w*x),1-2*(x*x+y*y); return R; }
inline Eigen::Vector3d rotvec(const std::string& n,Eigen::Matrix3d& R,double min2=1e-12){ double q[4]; vp_unit((n+"_q").c_str(),4,q);
  double s=q[1]*q[1]+q[2]*q[2]+q[3]*q[3]; vp_assume(s>min2); s=std::sqrt(s); double a=2*std::atan2(s,q[0]); R=quat_matrix(q); return Eigen::Vector3d(a*(q[1]/s),a*(q[2]/s),a*(q[3]/s)); }
inline Eigen::Vector3d real3(const std::string& n){ Eigen::Vector3d v; for(int i=0;i<3;i++) v(i)=vp_real((n+std::to_string(i)).c_str()); return v; }
// any rotation vector whatever, longer than sqrt(min2), and the rotation it stands for (Rodrigues)
inline Eigen::Vector3d anyvec(const std::string& n,Eigen::Matrix3d& R,double min2){ Eigen::Vector3d r=real3(n); double s=r(0)*r(0)+r(1)*r(1)+r(2)*r(2); vp_assume(s>min2); double a=std::sqrt(s),k[3]={r(0)/a,r(1)/a,r(2)/a},c=std::cos(a),d=std::sin(a);
  double K[3][3]={{0,-k[2],k[1]},{k[2],0,-k[0]},{-k[1],k[0],0}};
  for(int i=0;i<3;i++) for(int j=0;j<3;j++) R(i,j)=(i==j?c:0.0)+d*K[i][j]+(1-c)*k[i]*k[j]; return r; }
