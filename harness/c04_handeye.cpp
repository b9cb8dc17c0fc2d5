#include "calib.h"
#include <rct_optimizations/extrinsic_hand_eye.h>
#ifndef NOBS
#define NOBS 1
#endif
#ifndef NCORR
#define NCORR 1
#endif
#if DIM==2
typedef ExtrinsicHandEyeProblem2D3D Problem; typedef Correspondence2D3D Corr; typedef Observation2D3D Obs;
#else
typedef ExtrinsicHandEyeProblem3D3D Problem; typedef Correspondence3D3D Corr; typedef Observation3D3D Obs;
#endif
static Problem pb;
static Eigen::Vector3d incam(int o,int c,const Iso& cam,const Iso& tgt){
  auto& ob=pb.observations[o]; 
  return appinv(cam,appinv(ob.to_camera_mount,app(ob.to_target_mount,app(tgt,ob.correspondence_set[c].in_target)))); }
static Vals oracle(const Iso& cam,const Iso& tgt){ Vals v;
  for(int o=0;o<NOBS;o++) for(int c=0;c<(int)pb.observations[o].correspondence_set.size();c++){ Eigen::Vector3d p=incam(o,c,cam,tgt); auto& m=pb.observations[o].correspondence_set[c].in_image;
#if DIM==2
    pixel(v,pb.intr,p,m);
#else
    for(int i=0;i<3;i++) v.push_back(p(i)-m(i));
#endif
  } return v; }
void vp_main(){
  for(int o=0;o<NOBS;o++){ Obs ob; ob.to_camera_mount=vpr::pose(S("mount",o)); ob.to_target_mount=vpr::pose(S("tmount",o));
    int nc=NCORR-(o>0&&NCORR>1?1:0);
    for(int c=0;c<nc;c++){ Corr k; 
#if DIM==2
      k.in_image=vec2(S("img",o,c));
#else
      k.in_image=vec3(S("img",o,c));
#endif
      k.in_target=vec3(S("pt",o,c)); ob.correspondence_set.push_back(k); }
    pb.observations.push_back(ob); }
  pb.camera_mount_to_camera_guess=vpr::pose("gcam"); pb.target_mount_to_target_guess=vpr::pose("gtgt");
#if DIM==2
  pb.intr=intrinsics("k");
#endif
  bool behind=false;
#if DIM==2
  for(int o=0;o<NOBS;o++) for(int c=0;c<(int)pb.observations[o].correspondence_set.size();c++){ double z=incam(o,c,pb.camera_mount_to_camera_guess,pb.target_mount_to_target_guess)(2);
#ifdef GUARD
    vp_assume(z<-1e-6||z>1e-6); if(z<=0) behind=true;
#else
    vp_assume(z>1e-6);
#endif
  }
#endif
  vpc::on_block=[](int,int i,const vpc::Block& b,double* v){ vp_check("pose-block",b.size==6); vpr::pose_block(S("sol",i),v); };
  ExtrinsicHandEyeResult r; bool thrown=false;
  try { r=optimize(pb); } catch(const std::exception&){ thrown=true; }
#ifdef GUARD
  vp_check("rejected-exactly-when-behind",thrown==behind); vp_reach(thrown?"thrown":"solved"); return;
#endif
  vp_check("accepted",!thrown);
  if(thrown) return;
  vp_check("one-solve",vpc::records.size()==1); auto& R=vpc::records[0];
  no_loss(R);
  vp_reach("solved");
#if DIM==2
  for(int o=0;o<NOBS;o++) for(int k=0;k<(int)pb.observations[o].correspondence_set.size();k++) off_plane(incam(o,k,r.camera_mount_to_camera,r.target_mount_to_target)(2));
#endif
  vpc::evaluate(false); vpc::evaluate(true);
  match("start",flat(R,false),oracle(pb.camera_mount_to_camera_guess,pb.target_mount_to_target_guess));
  match("solution",flat(R,true),oracle(r.camera_mount_to_camera,r.target_mount_to_target));
}
