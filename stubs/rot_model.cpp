#include "rot_model.h"
#include <cstring>
#include <vector>
#include <cmath>
namespace vpr {
Eigen::Matrix3d quat(const std::string& name){
  double q[4]; vp_unit((name+"_q").c_str(),4,q); double w=q[0],x=q[1],y=q[2],z=q[3];
  Eigen::Matrix3d R;
  R<<1-2*(y*y+z*z),2*(x*y-w*z),2*(x*z+w*y), 2*(x*y+w*z),1-2*(x*x+z*z),2*(y*z-w*x), 2*(x*z-w*y),2*(y*z+w*x),1-2*(x*x+y*y);
  return R; }
Eigen::Isometry3d pose(const std::string& name){
  Eigen::Isometry3d T=Eigen::Isometry3d::Identity(); T.linear()=quat(name);
  for(int i=0;i<3;i++) T.translation()(i)=vp_real((name+"_t"+std::to_string(i)).c_str());
  return T; }
}
#if defined(VP_SYM)&&!defined(VP_REAL_ROT)
namespace vpr {
struct Rot{ unsigned long long k[3]; Eigen::Matrix3d R; };
static std::vector<Rot> reg; static int nfresh=0;
static void put(const double* a,const Eigen::Matrix3d& R){ Rot r; memcpy(r.k,a,24); r.R=R; reg.push_back(r); }
Eigen::Matrix3d get(const double* a){
  unsigned long long k[3]; memcpy(k,a,24);
  for(auto&r:reg) if(r.k[0]==k[0]&&r.k[1]==k[1]&&r.k[2]==k[2]) return r.R;
  bool zero=true; for(int i=0;i<3;i++) if(k[i]<<1) zero=false;
  Eigen::Matrix3d R=zero? Eigen::Matrix3d(Eigen::Matrix3d::Identity()): quat("anyrot"+std::to_string(nfresh++));
  put(a,R); return R; }
void pose_block(const std::string& name,double* b){
  rct_optimizations::Pose6d p; double a[3]; for(int i=0;i<3;i++) a[i]=vp_fresh((name+"_a"+std::to_string(i)).c_str());
  put(a,quat(name)); p.rx()=a[0];p.ry()=a[1];p.rz()=a[2];
  p.x()=vp_real((name+"_t0").c_str());p.y()=vp_real((name+"_t1").c_str());p.z()=vp_real((name+"_t2").c_str());
  for(int i=0;i<6;i++) b[i]=p.values[i]; }
}
namespace rct_optimizations {
Pose6d poseEigenToCal(const Eigen::Isometry3d& T){
  static int n=0; Pose6d p; double a[3]; std::string nm="aa"+std::to_string(n++);
  for(int i=0;i<3;i++) a[i]=vp_fresh((nm+"_"+std::to_string(i)).c_str());
  vpr::put(a,T.linear()); p.rx()=a[0];p.ry()=a[1];p.rz()=a[2]; p.x()=T.translation().x();p.y()=T.translation().y();p.z()=T.translation().z(); return p; }
Eigen::Isometry3d poseCalToEigen(const Pose6d& p){
  double a[3]={p.rx(),p.ry(),p.rz()}; Eigen::Isometry3d T=Eigen::Isometry3d::Identity(); T.linear()=vpr::get(a);
  T.translation()=Eigen::Vector3d(p.x(),p.y(),p.z()); return T; }
}
static Eigen::Vector3d rot(const Eigen::Matrix3d& R,const double* p){ Eigen::Vector3d o; for(int i=0;i<3;i++) o(i)=R(i,0)*p[0]+R(i,1)*p[1]+R(i,2)*p[2]; return o; }
namespace vpr {
static Eigen::Vector3d abstracted(int k,const double* p){ Eigen::Vector3d v; double q[3];
  for(int j=0;j<3;j++) q[j]=vp_peek(p[j]);
  for(int i=0;i<3;i++){ double s=0; for(int j=0;j<3;j++) s+=vp_peek(reg[k].R(i,j))*q[j]; v(i)=vp_abstract(("rot"+std::to_string(k)+"_"+std::to_string(i)).c_str(),3,p,s); } return v; }
Eigen::Vector3d apply(const Eigen::Isometry3d& T,const Eigen::Vector3d& p){ Eigen::Matrix3d R=T.linear();
#ifdef VP_ABS_ROT
  for(size_t k=0;k<reg.size();k++) if(memcmp(reg[k].R.data(),R.data(),72)==0) return abstracted((int)k,p.data())+T.translation();
#endif
  return rot(R,p.data())+T.translation(); }
}
namespace ceres { template<> void AngleAxisRotatePoint<double>(const double* a,const double* p,double* o){
  Eigen::Matrix3d R=vpr::get(a);
#ifdef VP_ABS_ROT
  for(size_t k=0;k<vpr::reg.size();k++) if(memcmp(vpr::reg[k].R.data(),R.data(),72)==0){ Eigen::Vector3d v=vpr::abstracted((int)k,p); for(int i=0;i<3;i++) o[i]=v(i); return; }
#endif
  for(int i=0;i<3;i++) o[i]=R(i,0)*p[0]+R(i,1)*p[1]+R(i,2)*p[2]; } }
#else
namespace vpr {
Eigen::Vector3d apply(const Eigen::Isometry3d& T,const Eigen::Vector3d& p){ return T*p; }
void pose_block(const std::string& name,double* b){
  rct_optimizations::Pose6d p; Eigen::AngleAxisd aa(quat(name)); Eigen::Vector3d v=aa.angle()*aa.axis();
  p.rx()=v.x();p.ry()=v.y();p.rz()=v.z();
  p.x()=vp_real((name+"_t0").c_str());p.y()=vp_real((name+"_t1").c_str());p.z()=vp_real((name+"_t2").c_str());
  for(int i=0;i<6;i++) b[i]=p.values[i]; }
}
#endif
