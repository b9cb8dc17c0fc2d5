// Common oracle of the calibration harnesses: the residuals captured at the solver equal, up to order and sign, the
// residuals recomputed from the poses the calibration was given or returned.
#pragma once
#include "vp.h"
#include "ceres_stub.h"
#include "rot_model.h"
#include <algorithm>
#include <cmath>
using namespace rct_optimizations;
typedef Eigen::Isometry3d Iso;
inline std::string S(const std::string& a,int i){ return a+std::to_string(i); }
inline std::string S(const std::string& a,int i,int j){ return a+std::to_string(i)+"_"+std::to_string(j); }
inline Eigen::Vector3d vec3(const std::string& n){ Eigen::Vector3d v; for(int i=0;i<3;i++) v(i)=vp_real((n+"_"+std::to_string(i)).c_str()); return v; }
inline Eigen::Vector2d vec2(const std::string& n){ Eigen::Vector2d v; for(int i=0;i<2;i++) v(i)=vp_real((n+"_"+std::to_string(i)).c_str()); return v; }
inline CameraIntrinsics intrinsics(const std::string& n){ CameraIntrinsics k; k.fx()=vp_real((n+"_fx").c_str());k.fy()=vp_real((n+"_fy").c_str());k.cx()=vp_real((n+"_cx").c_str());k.cy()=vp_real((n+"_cy").c_str()); return k; }
// rigid transform arithmetic written out (the oracle does not use the library under test)
inline Eigen::Vector3d app(const Iso& T,const Eigen::Vector3d& p){ Eigen::Vector3d o; for(int i=0;i<3;i++){ double s=T(i,0)*p(0); s=s+T(i,1)*p(1); s=s+T(i,2)*p(2); o(i)=s+T(i,3); } return o; }
inline Eigen::Vector3d appinv(const Iso& T,const Eigen::Vector3d& p){ Eigen::Vector3d d,o; for(int i=0;i<3;i++) d(i)=p(i)-T(i,3); for(int i=0;i<3;i++){ double s=T(0,i)*d(0); s=s+T(1,i)*d(1); s=s+T(2,i)*d(2); o(i)=s; } return o; }
inline void finite(const char* n,double x){ vp_check_eq(n,x-x,0.0); }   // NaN and infinities fail
typedef std::vector<double> Vals;
inline void off_plane(double z){ vp_assume(z<-1e-6||z>1e-6); }   // no claim for points on a camera's own plane
inline void pixel(Vals& o,const CameraIntrinsics& k,const Eigen::Vector3d& c,const Eigen::Vector2d& m){ o.push_back(k.fx()*(c(0)/c(2))+k.cx()-m(0)); o.push_back(k.fy()*(c(1)/c(2))+k.cy()-m(1)); }
inline void match(const char* name,const Vals& act,const Vals& exp){
  vp_check((std::string(name)+"-count").c_str(),act.size()==exp.size());
  size_t n=std::min(act.size(),exp.size()); std::vector<char> used(act.size(),0); std::vector<int> to(exp.size(),-1);
  for(size_t i=0;i<exp.size();i++){ double e=std::fabs(vp_peek(exp[i])); int b=-1; double bd=1e-6*(1+e);
    if(i<act.size()&&!used[i]&&std::fabs(std::fabs(vp_peek(act[i]))-e)<=bd) b=(int)i;   // the same place, where it fits
    else for(size_t j=0;j<act.size();j++) if(!used[j]){ double d=std::fabs(std::fabs(vp_peek(act[j]))-e); if(d<=bd){ bd=d; b=(int)j; } }
    if(b>=0){ used[b]=1; to[i]=b; } }
  for(size_t i=0;i<exp.size();i++) if(to[i]<0) for(size_t j=0;j<act.size();j++) if(!used[j]){ used[j]=1; to[i]=(int)j; break; }
  (void)n;
  for(size_t i=0;i<exp.size();i++) if(to[i]>=0){ double a=act[to[i]],e=exp[i]; bool neg=vp_peek(a)*vp_peek(e)<0; vp_check_eq(name,a,neg?-e:e); } }
inline Vals flat(const vpc::Record& r,bool fin){ Vals o; for(auto&x:r.res) for(double v:(fin?x.fin:x.init)) o.push_back(v); return o; }
inline void no_loss(const vpc::Record& r,bool fixed=false){ if(!fixed) for(auto&b:r.blocks) vp_check("every-parameter-free",!b.constant&&!b.bounded&&b.fixed.empty()); for(auto&x:r.res) vp_check("no-loss-function",!x.loss); }
