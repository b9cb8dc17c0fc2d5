// PnP on the real angle-axis code.  DIM 2/3; IDENT: the guess has no rotation, the derivatives of every residual are
// finite.  START: any guess, residuals at the guess.  Otherwise: residuals at the solution.
#include "calib.h"
#include <rct_optimizations/pnp.h>
#include <rct_optimizations/eigen_conversions.h>
#ifndef NCORR
#define NCORR 2
#endif
#if DIM==2
typedef PnPProblem Problem; typedef Correspondence2D3D Corr;
#else
typedef PnPProblem3D Problem; typedef Correspondence3D3D Corr;
#endif
static Problem pb;
static Vals oracle(const Iso& T){ Vals v; for(auto&k:pb.correspondences){ Eigen::Vector3d p=app(T,k.in_target);
#if DIM==2
  pixel(v,pb.intr,p,k.in_image);
#else
  for(int i=0;i<3;i++) v.push_back(p(i)-k.in_image(i));
#endif
  } return v; }
static void planes(const Iso& T){
#if DIM==2
  for(auto&k:pb.correspondences) off_plane(app(T,k.in_target)(2));
#endif
}
void vp_main(){
  for(int c=0;c<NCORR;c++){ Corr k; k.in_target=vec3(S("pt",c));
#if DIM==2
    k.in_image=vec2(S("img",c));
#else
    k.in_image=vec3(S("img",c));
#endif
    pb.correspondences.push_back(k); }
#if DIM==2
  pb.intr=intrinsics("k");
#endif
#ifndef START
  Iso g=Iso::Identity(); for(int i=0;i<3;i++) g.translation()(i)=vp_real(S("g_t",i).c_str());
#else
  Iso g=vpr::pose("g"); double q[4]; vp_unit("g_q",4,q); vp_assume(q[1]*q[1]+q[2]*q[2]+q[3]*q[3]>1e-12);
#endif
  planes(g); pb.camera_to_target_guess=g;
#if !defined(IDENT)&&!defined(START)
  vpc::on_block=[](int,int i,const vpc::Block& b,double* v){ bool rot=b.size==3; for(int j=0;j<b.size;j++) if(vp_peek(v[j])!=0) rot=false;
    if(rot){ // rotation vector of an arbitrary rotation, up to a full turn: angle 2*atan2(|v|,w) along v
      double q[4]; vp_unit("sol_q",4,q); double n=q[1]*q[1]+q[2]*q[2]+q[3]*q[3]; vp_assume(n>1e-6); n=std::sqrt(n); double a=2*std::atan2(n,q[0]); for(int j=0;j<3;j++) v[j]=a*(q[j+1]/n); }
    else for(int j=0;j<b.size;j++) v[j]=vp_real(S("sol",i,j).c_str()); };
#endif
  PnPResult r=optimize(pb);
  vp_check("one-solve",vpc::records.size()==1); auto& R=vpc::records[0]; no_loss(R); vp_reach("solved");
#ifdef IDENT
  for(auto&q:R.res){ int nb=(int)q.blocks.size(); std::vector<std::vector<double>> J(nb); std::vector<double*> jp; std::vector<const double*> p;
    for(int b=0;b<nb;b++){ auto&B=R.blocks[q.blocks[b]]; p.push_back(B.init.data()); J[b].assign(B.size*q.cost->num_residuals(),0.0); }
    for(auto&j:J) jp.push_back(j.data());
    std::vector<double> v(q.cost->num_residuals()); vp_check("evaluates",q.cost->Evaluate(p.data(),v.data(),jp.data()));
    for(double x:v) finite("finite-residual",x);
    for(auto&j:J) for(double x:j) finite("finite-derivative",x); }
#else
#ifdef START
  vpc::evaluate(false); match("start",flat(R,false),oracle(g));
#else
  planes(r.camera_to_target); vpc::evaluate(true); match("solution",flat(R,true),oracle(r.camera_to_target));
#endif
#endif
}
