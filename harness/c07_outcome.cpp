// Reported convergence and cost of every calibration and fit, for any outcome the solver reports.
#include "calib.h"
#include <rct_optimizations/extrinsic_hand_eye.h>
#include <rct_optimizations/extrinsic_multi_static_camera.h>
#include <rct_optimizations/extrinsic_multi_static_camera_only.h>
#include <rct_optimizations/extrinsic_multi_static_camera_wrist_only.h>
#include <rct_optimizations/experimental/multi_camera_pnp.h>
#include <rct_optimizations/experimental/camera_intrinsic.h>
#include <rct_optimizations/circle_fit.h>
#include <rct_optimizations/pnp.h>
static int term; static double c0,c1; static int skip=0;
static Correspondence2D3D::Set set2(int n){ Correspondence2D3D::Set s; for(int i=0;i<n;i++){ Correspondence2D3D k; k.in_image=Eigen::Vector2d(i,1); k.in_target=Eigen::Vector3d(i,2,3); s.push_back(k); } return s; }
static Correspondence3D3D::Set set3(int n){ Correspondence3D3D::Set s; for(int i=0;i<n;i++){ Correspondence3D3D k; k.in_image=Eigen::Vector3d(i,1,2); k.in_target=Eigen::Vector3d(i,2,3); s.push_back(k); } return s; }
template<class R> static void outcome(const char* who,const R& r,int residuals){ std::string w=who;
  vp_check((w+"-converged").c_str(),r.converged==(term==(int)ceres::CONVERGENCE));
  vp_check_eq((w+"-initial-cost").c_str(),r.initial_cost_per_obs,c0/residuals); vp_check_eq((w+"-final-cost").c_str(),r.final_cost_per_obs,c1/residuals); }
static void vp_case(int which,int n){
  vpc::reset(); skip=0;
  vpc::on_summary=[](int k,ceres::Solver::Summary& s){ if(k<skip) return; s.termination_type=(ceres::TerminationType)term; s.initial_cost=c0; s.final_cost=c1; };
  Iso I=Iso::Identity(); CameraIntrinsics K; K.fx()=500; K.fy()=400; K.cx()=300; K.cy()=200;
  if(which==0){ ExtrinsicHandEyeProblem2D3D p; p.camera_mount_to_camera_guess=I; p.target_mount_to_target_guess=I; p.intr=K; for(int i=0;i<2;i++){ Observation2D3D o; o.correspondence_set=set2(n); p.observations.push_back(o); } outcome("hand-eye-2d",optimize(p),2*2*n); }
  if(which==1){ ExtrinsicHandEyeProblem3D3D p; p.camera_mount_to_camera_guess=I; p.target_mount_to_target_guess=I; for(int i=0;i<2;i++){ Observation3D3D o; o.correspondence_set=set3(n); p.observations.push_back(o); } outcome("hand-eye-3d",optimize(p),2*3*n); }
  if(which==2){ PnPProblem p; p.camera_to_target_guess=I; p.intr=K; p.correspondences=set2(n); outcome("pnp",optimize(p),2*n); }
  if(which==3){ PnPProblem3D p; p.camera_to_target_guess=I; p.correspondences=set3(n); outcome("pnp-3d",optimize(p),3*n); }
  if(which==4){ ExtrinsicMultiStaticCameraMovingTargetProblem p; p.base_to_camera_guess={I,I}; p.wrist_to_target_guess=I; p.intr={K,K}; p.wrist_poses={{I},{I,I}}; p.image_observations={{set2(n)},{set2(1),set2(2)}}; outcome("moving-target",optimize(p),2*(n+3)); }
  if(which==5){ ExtrinsicMultiStaticCameraOnlyProblem p; p.fix_first_camera=false; p.base_to_camera_guess={I,I}; p.base_to_target_guess={I}; p.intr={K,K}; p.image_observations={{set2(n)},{set2(1)}}; outcome("free-targets",optimize(p),2*(n+1)); }
  if(which==6){ ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem p; p.base_to_camera_guess={I,I}; p.wrist_to_target_guess=I; p.intr={K,K}; p.wrist_poses={I}; p.image_observations={{set2(n)},{set2(1)}}; outcome("wrist-only",optimize(p),2*(n+1)); }
  if(which==7){ MultiCameraPnPProblem p; p.base_to_camera={I,I}; p.base_to_target_guess=I; p.intr={K,K}; p.image_observations={set2(n),set2(1)}; outcome("multi-camera-pnp",optimize(p),2*(n+1)); }
  if(which==8){ CircleFitProblem p; p.x_center_initial=0;p.y_center_initial=0;p.radius_initial=1; for(int i=0;i<n;i++) p.observations.push_back(Eigen::Vector2d(i,1)); outcome("circle",optimize(p),n); }
  if(which==9){ skip=1; IntrinsicEstimationProblem p; p.intrinsics_guess=K; p.use_extrinsic_guesses=false; p.image_observations={set2(n)}; outcome("intrinsic",optimize(p),2*n); } }
void vp_main(){
  term=vp_int("term",0,4); c0=vp_real("initial"); c1=vp_real("final");
  int n=vp_concrete(vp_int("n",1,NMAX)),w=vp_concrete(vp_int("which",0,9));
  vp_case(w,n); vp_reach(("case"+std::to_string(w)).c_str());
}
