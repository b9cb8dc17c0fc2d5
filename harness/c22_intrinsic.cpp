// Intrinsic calibration.  Rotated points are uninterpreted (decided by C03/C04); each image's initial pose estimate may fail.
#include "calib.h"
#include <rct_optimizations/experimental/camera_intrinsic.h>
#ifndef NI
#define NI 2
#endif
static IntrinsicEstimationProblem pb; static bool ok[NI];
static void predict(Vals& v,const double* k,const Eigen::Vector3d& c,const Eigen::Vector2d& m){
  double x=c(0)/c(2),y=c(1)/c(2),r2=x*x+y*y; double rad=1+k[4]*r2+k[5]*r2*r2+k[8]*r2*r2*r2;
  v.push_back(k[0]*(x*rad+2*k[6]*x*y+k[7]*(r2+2*x*x))+k[2]-m(0));
  v.push_back(k[1]*(y*rad+k[6]*(r2+2*y*y)+2*k[7]*x*y)+k[3]-m(1)); }
static Vals oracle(const double* k,const std::vector<Iso>& T){ Vals v; for(int i=0;i<NI;i++) if(ok[i]) for(auto&o:pb.image_observations[i]) predict(v,k,vpr::apply(T[i],o.in_target),o.in_image); return v; }
static void planes(const std::vector<Iso>& T){ for(int i=0;i<NI;i++) if(ok[i]) for(auto&o:pb.image_observations[i]) off_plane(vpr::apply(T[i],o.in_target)(2)); }
void vp_main(){
  bool any=false;
  for(int i=0;i<NI;i++){ ok[i]=vp_bool(S("ok",i).c_str()); if(ok[i]) any=true; Correspondence2D3D::Set s; for(int j=0;j<(i==0?2:1);j++){ Correspondence2D3D k; k.in_image=vec2(S("m",i,j)); k.in_target=vec3(S("p",i,j)); s.push_back(k); } pb.image_observations.push_back(s); }
  vp_assume(any);
  pb.intrinsics_guess=intrinsics("k"); pb.use_extrinsic_guesses=false;
  vpc::on_block=[](int k,int i,const vpc::Block& b,double* v){
    if(b.size==9) for(int j=0;j<9;j++) v[j]=vp_real(S("intr",j).c_str());
    else if(b.size==6) vpr::pose_block(S("sol",i),v);
    else { bool rot=false; for(int j=0;j<b.size;j++) if(std::fabs(vp_peek(v[j]))>3) rot=true; for(int j=0;j<b.size;j++) v[j]=rot?0:vp_real(S("pnp",k,j).c_str()); } };
  vpc::on_summary=[](int k,ceres::Solver::Summary& s){ if(k<NI&&!ok[k]) s.termination_type=ceres::NO_CONVERGENCE; };
  IntrinsicEstimationResult r; bool thrown=false;
  try { r=optimize(pb); } catch(const std::exception&){ thrown=true; }
  vp_check("accepted",!thrown); if(thrown) return;
  vp_check("one-solve-per-image-and-one",vpc::records.size()==NI+1); int last=(int)vpc::records.size()-1; auto& R=vpc::records[last]; no_loss(R);
  vp_check("pose-per-image",r.target_transforms.size()==NI); if(r.target_transforms.size()!=NI) return;
  vp_reach(ok[0]&&ok[NI-1]?"all":"some");
  double k0[9]={pb.intrinsics_guess.fx(),pb.intrinsics_guess.fy(),pb.intrinsics_guess.cx(),pb.intrinsics_guess.cy(),0,0,0,0,0};
  double k1[9]={r.intrinsics.fx(),r.intrinsics.fy(),r.intrinsics.cx(),r.intrinsics.cy(),r.distortions[0],r.distortions[1],r.distortions[2],r.distortions[3],r.distortions[4]};
  std::vector<Iso> T(r.target_transforms.begin(),r.target_transforms.end()); planes(T);
  std::vector<Iso> T0; for(int i=0;i<NI;i++){ Iso g=Iso::Identity(); if(ok[i]) for(int j=0;j<3;j++) g.translation()(j)=vp_real(S("pnp",i,j).c_str()); T0.push_back(g); } planes(T0);
  vpc::evaluate(false,last); vpc::evaluate(true,last);
  match("start",flat(R,false),oracle(k0,T0));
  match("solution",flat(R,true),oracle(k1,T));
}
