// MODE 0: any rotation vector; 1: no rotation
#include "rotvec.h"
#include <ceres/jet.h>
#include <rct_optimizations/ceres_math_utilities.h>
#include <rct_optimizations/eigen_conversions.h>
using namespace rct_optimizations;
typedef ceres::Jet<double,9> J;
void vp_main(){
  Eigen::Vector3d t=real3("t"),p=real3("p"); Eigen::Matrix3d R; Eigen::Vector3d r;
#if MODE==0
  r=rotvec("r",R);
#elif MODE==2
  r=anyvec("r",R,2.3e-16);
#else
  r.setZero(); R.setIdentity();
#endif
  Eigen::Vector3d e=R*p+t;
  double aa[3]={r.x(),r.y(),r.z()},tx[3]={t.x(),t.y(),t.z()},pt[3]={p.x(),p.y(),p.z()},o[3],o2[3];
  transformPoint(aa,tx,pt,o); vp_reach("transformed");
  Pose6d c; c.rx()=aa[0];c.ry()=aa[1];c.rz()=aa[2];c.x()=tx[0];c.y()=tx[1];c.z()=tx[2];
  poseTransformPoint(c,pt,o2);
  for(int i=0;i<3;i++){ vp_check_eq("arrays",o[i],e(i)); vp_check_eq("pose",o2[i],e(i)); }
  vp_check("inputs-kept",aa[0]==r.x()&&aa[1]==r.y()&&aa[2]==r.z()&&tx[0]==t.x()&&pt[0]==p.x()&&pt[1]==p.y()&&pt[2]==p.z());
#ifndef NOJET
  // differentiated scalars: same value; derivative by the translation is the identity, by the point the rotation
  J ja[3],jt[3],jp[3],jo[3]; for(int i=0;i<3;i++){ ja[i]=J(aa[i],i); jt[i]=J(tx[i],3+i); jp[i]=J(pt[i],6+i); }
  transformPoint(ja,jt,jp,jo);
  for(int i=0;i<3;i++){ vp_check_eq("jet-value",jo[i].a,e(i));
    for(int j=0;j<3;j++){ vp_check_eq("jet-translation",jo[i].v[3+j],i==j); vp_check_eq("jet-point",jo[i].v[6+j],R(i,j)); } }
#endif
  Eigen::Isometry3d T=poseCalToEigen(c); Eigen::Vector3d u=T*p;
  for(int i=0;i<3;i++) vp_check_eq("agrees-with-transform",u(i),o[i]);
}
