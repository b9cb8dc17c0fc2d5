// MODE 0: pose vector -> transform; 1: transform -> pose vector -> transform; 2: no rotation; 3: as 0 with the vector itself as input
#include "rotvec.h"
#include <rct_optimizations/eigen_conversions.h>
using namespace rct_optimizations;
static void same(const char* n,const Eigen::Isometry3d& T,const Eigen::Matrix3d& R,const Eigen::Vector3d& t){
  for(int i=0;i<3;i++){ for(int j=0;j<3;j++) vp_check_eq(n,T(i,j),R(i,j)); vp_check_eq("translation",T(i,3),t(i)); }
  for(int j=0;j<4;j++) vp_check_eq("last-row",T.matrix()(3,j),j==3); }
static Pose6d vec(const Eigen::Vector3d& r,const Eigen::Vector3d& t){ Pose6d p; p.rx()=r.x();p.ry()=r.y();p.rz()=r.z();p.x()=t.x();p.y()=t.y();p.z()=t.z(); return p; }
void vp_main(){
  Eigen::Vector3d t=real3("t");
#if MODE==0||MODE==3
#if MODE==3
  Eigen::Matrix3d R; Eigen::Vector3d r=anyvec("r",R,2.3e-16);
#else
  Eigen::Matrix3d R; Eigen::Vector3d r=rotvec("r",R);
#endif
  Eigen::Isometry3d T=poseCalToEigen(vec(r,t)); vp_reach("vector");
  same("rotation",T,R,t);
#elif MODE==1
  double q[4]; vp_unit("q",4,q); vp_assume(q[1]*q[1]+q[2]*q[2]+q[3]*q[3]>1e-12);
  Eigen::Isometry3d T=Eigen::Isometry3d::Identity(); T.linear()=quat_matrix(q); T.translation()=t;
  Pose6d p=poseEigenToCal(T); vp_reach("transform");
  vp_check_eq("x",p.x(),t.x());vp_check_eq("y",p.y(),t.y());vp_check_eq("z",p.z(),t.z());
  vp_check_le("no-longer-than-pi",p.rx()*p.rx()+p.ry()*p.ry()+p.rz()*p.rz(),M_PI*M_PI*(1+1e-9));
  Eigen::Isometry3d B=poseCalToEigen(p);
  same("round-trip",B,T.linear(),t);
#else
  Pose6d p=poseEigenToCal(Eigen::Isometry3d(Eigen::Translation3d(t))); vp_reach("identity");
  vp_check_eq("no-rotation",p.rx()*p.rx()+p.ry()*p.ry()+p.rz()*p.rz(),0);
  same("identity",poseCalToEigen(vec(Eigen::Vector3d::Zero(),t)),Eigen::Matrix3d::Identity(),t);
  same("identity",poseCalToEigen(p),Eigen::Matrix3d::Identity(),t);
#endif
}
