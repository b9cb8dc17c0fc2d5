// Multi-camera calibrations.  WHICH: 0 moving target on a wrist, 1 free targets (camera poses only), 2 wrist only
// (one common camera correction), 3 multi-camera PnP.
#include "calib.h"
#include <rct_optimizations/extrinsic_multi_static_camera.h>
#include <rct_optimizations/extrinsic_multi_static_camera_only.h>
#include <rct_optimizations/extrinsic_multi_static_camera_wrist_only.h>
#include <rct_optimizations/experimental/multi_camera_pnp.h>
#ifndef NC
#define NC 2
#endif
#ifndef NI
#define NI 2
#endif
#ifndef FIX
#define FIX 0
#endif
#if WHICH==0
typedef ExtrinsicMultiStaticCameraMovingTargetProblem Problem; typedef ExtrinsicMultiStaticCameraMovingTargetResult Result;
#elif WHICH==1
typedef ExtrinsicMultiStaticCameraOnlyProblem Problem; typedef ExtrinsicMultiStaticCameraOnlyResult Result;
#elif WHICH==2
typedef ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem Problem; typedef ExtrinsicMultiStaticCameraMovingTargetWristOnlyResult Result;
#else
typedef MultiCameraPnPProblem Problem; typedef MultiCameraPnPResult Result;
#endif
static Problem pb;
static std::vector<std::vector<Correspondence2D3D::Set>> obs;
struct Sol{ std::vector<Iso> cam; std::vector<Iso> tgt; };     // base to camera; wrist to target (one) or base to target (per image)
static int images(int c){ return WHICH==0? NI-(c==1&&NI>1?1:0) : WHICH==3? 1:NI; }
static Eigen::Vector3d incam(const Sol& s,int c,int i,int j){
  Eigen::Vector3d p=app(s.tgt[WHICH==1?i:0],obs[c][i][j].in_target);
#if WHICH==0
  p=app(pb.wrist_poses[c][i],p);
#elif WHICH==2
  p=app(pb.wrist_poses[i],p);
#endif
  return appinv(s.cam[c],p); }
static Vals oracle(const Sol& s){ Vals v;
  for(int c=0;c<NC;c++) for(int i=0;i<images(c);i++) for(size_t j=0;j<obs[c][i].size();j++) pixel(v,pb.intr[c],incam(s,c,i,j),obs[c][i][j].in_image);
  return v; }
static void planes(const Sol& s){ for(int c=0;c<NC;c++) for(int i=0;i<images(c);i++) for(size_t j=0;j<obs[c][i].size();j++) off_plane(incam(s,c,i,j)(2)); }
static void same(const char* n,const Iso& a,const Iso& b){ for(int i=0;i<3;i++) for(int j=0;j<4;j++) vp_check_eq(n,a(i,j),b(i,j)); }
void vp_main(){
  Sol g; obs.resize(NC);
  for(int c=0;c<NC;c++){ pb.intr.push_back(intrinsics(S("k",c))); g.cam.push_back(vpr::pose(S("cam",c)));
    for(int i=0;i<images(c);i++){ int n=(c==0&&i==0)?2:1; Correspondence2D3D::Set s;
      for(int j=0;j<n;j++){ Correspondence2D3D k; std::string nm=S("c",c)+"i"+std::to_string(i)+"j"+std::to_string(j); k.in_image=vec2("m_"+nm); k.in_target=vec3("p_"+nm); s.push_back(k); }
      obs[c].push_back(s); } }
#if WHICH==0
  for(int c=0;c<NC;c++){ pb.wrist_poses.emplace_back(); for(int i=0;i<images(c);i++) pb.wrist_poses[c].push_back(vpr::pose(S("wr",c,i))); }
  pb.image_observations=obs; pb.base_to_camera_guess.assign(g.cam.begin(),g.cam.end()); g.tgt.push_back(vpr::pose("tgt")); pb.wrist_to_target_guess=g.tgt[0];
#elif WHICH==1
  for(int i=0;i<NI;i++) g.tgt.push_back(vpr::pose(S("tgt",i)));
  pb.fix_first_camera=FIX; pb.image_observations=obs; pb.base_to_camera_guess.assign(g.cam.begin(),g.cam.end()); pb.base_to_target_guess.assign(g.tgt.begin(),g.tgt.end());
#elif WHICH==2
  for(int i=0;i<NI;i++) pb.wrist_poses.push_back(vpr::pose(S("wr",i)));
  pb.image_observations=obs; pb.base_to_camera_guess.assign(g.cam.begin(),g.cam.end()); g.tgt.push_back(vpr::pose("tgt")); pb.wrist_to_target_guess=g.tgt[0];
#else
  for(int c=0;c<NC;c++) pb.image_observations.push_back(obs[c][0]);
  pb.base_to_camera.assign(g.cam.begin(),g.cam.end()); g.tgt.push_back(vpr::pose("tgt")); pb.base_to_target_guess=g.tgt[0];
#endif
  planes(g);
  vpc::on_block=[](int,int i,const vpc::Block& b,double* v){ vp_check("pose-block",b.size==6); vpr::pose_block(S("sol",i),v); };
  Result r=optimize(pb);
  vp_check("one-solve",vpc::records.size()==1); auto& R=vpc::records[0]; no_loss(R,FIX); vp_reach("solved");
  Sol s;
#if WHICH==3
  s.cam=g.cam; s.tgt.push_back(r.base_to_target);
#else
  vp_check("camera-count",r.base_to_camera.size()==NC); if(r.base_to_camera.size()!=NC) return;
  s.cam.assign(r.base_to_camera.begin(),r.base_to_camera.end());
#if WHICH==1
  vp_check("target-count",r.base_to_target.size()==NI); if(r.base_to_target.size()!=NI) return;
  s.tgt.assign(r.base_to_target.begin(),r.base_to_target.end());
  if(FIX) same("first-camera-fixed",r.base_to_camera[0],g.cam[0]);
#else
  s.tgt.push_back(r.wrist_to_target);
#endif
#endif
  planes(s);
  vpc::evaluate(false); vpc::evaluate(true);
  match("start",flat(R,false),oracle(g));
  match("solution",flat(R,true),oracle(s));
}
