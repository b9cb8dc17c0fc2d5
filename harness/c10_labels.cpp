// Covariance labels: the solution is concrete with pairwise different parameter values, the covariance matrix is
// arbitrary.  A label's standard deviation must be that of the parameter the labelled component is read from.
#include "calib.h"
#include <rct_optimizations/extrinsic_hand_eye.h>
#include <rct_optimizations/extrinsic_multi_static_camera.h>
#include <rct_optimizations/experimental/camera_intrinsic.h>
#include <rct_optimizations/circle_fit.h>
#include <rct_optimizations/pnp.h>
#include <map>
static Correspondence2D3D::Set set2(int n){ Correspondence2D3D::Set s; for(int i=0;i<n;i++){ Correspondence2D3D k; k.in_image=Eigen::Vector2d(i,1); k.in_target=Eigen::Vector3d(i,2,3); s.push_back(k); } return s; }
static Correspondence3D3D::Set set3(int n){ Correspondence3D3D::Set s; for(int i=0;i<n;i++){ Correspondence3D3D k; k.in_image=Eigen::Vector3d(i,1,2); k.in_target=Eigen::Vector3d(i,2,3); s.push_back(k); } return s; }
static std::string ref(int b,int e){ return std::to_string(b)+"."+std::to_string(e); }
static double entry(int b1,int e1,int b2,int e2){ std::string a=ref(b1,e1),b=ref(b2,e2);
  if(a==b){ double v=vp_real(("var"+a).c_str()); vp_assume(v>1e-6); return v; }
  return a<b? vp_real(("cov"+a+"_"+b).c_str()): vp_real(("cov"+b+"_"+a).c_str()); }
struct Where{ int b,e; };
static Where find(double v){ auto&R=vpc::records.back(); for(size_t b=0;b<R.blocks.size();b++) for(int e=0;e<R.blocks[b].size;e++) if(std::fabs(R.blocks[b].fin[e]-v)<1e-9) return {(int)b,e}; return {-1,-1}; }
struct Exp{ Where own; Where strict; }; static std::map<std::string,Exp> want;
static void scalar(const std::string& l,double v){ want[l]={find(v),find(v)}; }
static void pose(const std::string& pre,const Iso& P){
  static const char* n[6]={"rx","ry","rz","x","y","z"}; Iso Q=P.inverse(); Eigen::AngleAxisd a(P.rotation()),b(Q.rotation());
  for(int k=0;k<6;k++){ double v=k<3?a.angle()*a.axis()(k):P.translation()(k-3),w=k<3?b.angle()*b.axis()(k):Q.translation()(k-3);
    Where s=find(v); if(k<3&&s.b<0) s=find(-v);   // the rotation vector of an inverse is the negative: same variance
     want[pre+"_"+n[k]]={s.b>=0?s:find(w),s}; } }
static void check(const std::string& who,const CovarianceResult& c){
  vp_check((who+"-every-parameter-once").c_str(),c.standard_deviations.size()==want.size());
  std::map<std::string,int> seen;
  for(auto&s:c.standard_deviations){ auto it=want.find(s.names.first); bool known=it!=want.end()&&!seen[s.names.first]++; vp_check((who+"-label-known").c_str(),known); if(!known) continue;
    Where w=it->second.own; vp_check((who+"-has-parameter").c_str(),w.b>=0); if(w.b<0) continue;
    vp_check_eq((who+"-stdev").c_str(),s.value,std::sqrt(entry(w.b,w.e,w.b,w.e)));
    Where t=it->second.strict; std::string comp=s.names.first.substr(s.names.first.rfind('_')+1);
    vp_check((who+"-of-the-named-quantity-itself:"+s.names.first).c_str(),t.b>=0); }
  for(auto&s:c.covariances){ auto i=want.find(s.names.first),j=want.find(s.names.second); bool known=i!=want.end()&&j!=want.end(); vp_check((who+"-label-known").c_str(),known); if(!known||i->second.own.b<0||j->second.own.b<0) continue;
    vp_check_eq((who+"-covariance").c_str(),s.value,entry(i->second.own.b,i->second.own.e,j->second.own.b,j->second.own.e)); }
  vp_check((who+"-pairs").c_str(),c.covariances.size()==want.size()*(want.size()-1)/2); vp_reach(who.c_str()); }
void vp_main(){
  vpc::on_block=[](int k,int i,const vpc::Block& b,double* v){ for(int j=0;j<b.size;j++) v[j]=0.1*(j+1)+0.03*i+0.017*((i*7+j*j*3)%11)+0.001*k; };
  vpc::cov=[](const double* a,int i,const double* b,int j){ auto&R=vpc::records.back(); int x=-1,y=-1; for(size_t k=0;k<R.blocks.size();k++){ if(R.blocks[k].p==a) x=(int)k; if(R.blocks[k].p==b) y=(int)k; } return entry(x,i,y,j); };
  Iso I=Iso::Identity(); CameraIntrinsics K; K.fx()=500; K.fy()=400; K.cx()=300; K.cy()=200;
#if WHICH==0
  ExtrinsicHandEyeProblem2D3D p; p.camera_mount_to_camera_guess=I; p.target_mount_to_target_guess=I; p.intr=K; Observation2D3D o; o.correspondence_set=set2(2); p.observations.push_back(o); auto r=optimize(p);
  pose("camera_mount_to_camera",r.camera_mount_to_camera); pose("target_mount_to_target",r.target_mount_to_target); check("hand-eye-2d",r.covariance);
#elif WHICH==1
  ExtrinsicHandEyeProblem3D3D p; p.camera_mount_to_camera_guess=I; p.target_mount_to_target_guess=I; Observation3D3D o; o.correspondence_set=set3(2); p.observations.push_back(o); auto r=optimize(p);
  pose("camera_mount_to_camera",r.camera_mount_to_camera); pose("target_mount_to_target",r.target_mount_to_target); check("hand-eye-3d",r.covariance);
#elif WHICH==2
  PnPProblem p; p.camera_to_target_guess=I; p.intr=K; p.correspondences=set2(2); auto r=optimize(p); pose("camera_to_target",r.camera_to_target); check("pnp",r.covariance);
#elif WHICH==3
  PnPProblem3D p; p.camera_to_target_guess=I; p.correspondences=set3(2); auto r=optimize(p); pose("camera_to_target",r.camera_to_target); check("pnp-3d",r.covariance);
#elif WHICH==4
  ExtrinsicMultiStaticCameraMovingTargetProblem p; p.base_to_camera_guess={I,I}; p.wrist_to_target_guess=I; p.intr={K,K}; p.wrist_poses={{I},{I,I}}; p.image_observations={{set2(1)},{set2(1),set2(2)}}; auto r=optimize(p);
  pose("base_to_camera0",r.base_to_camera[0]); pose("base_to_camera1",r.base_to_camera[1]); pose("wrist_to_target",r.wrist_to_target); check("moving-target",r.covariance);
#elif WHICH==5
  CircleFitProblem p; p.x_center_initial=0;p.y_center_initial=0;p.radius_initial=1; for(int i=0;i<3;i++) p.observations.push_back(Eigen::Vector2d(i,1)); auto r=optimize(p);
  scalar("x",r.x_center); scalar("y",r.y_center); want["r"]={find(std::sqrt(r.radius)),find(r.radius)}; check("circle",r.covariance);
#else
  IntrinsicEstimationProblem p; p.intrinsics_guess=K; p.use_extrinsic_guesses=false; p.image_observations={set2(1),set2(1)}; vpc::on_summary=[](int,ceres::Solver::Summary&){}; auto r=optimize(p);
  static const char* n[9]={"fx","fy","cx","cy","k1","k2","p1","p2","k3"}; double v[9]={r.intrinsics.fx(),r.intrinsics.fy(),r.intrinsics.cx(),r.intrinsics.cy(),r.distortions[0],r.distortions[1],r.distortions[2],r.distortions[3],r.distortions[4]};
  for(int i=0;i<9;i++) scalar(n[i],v[i]); for(int i=0;i<2;i++) pose(S("pose",i),r.target_transforms[i]); check("intrinsic",r.covariance);
#endif
}
