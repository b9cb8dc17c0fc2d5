// Circle fit: residuals at the guess and at the returned circle; both call forms of the cost agree.
#include "calib.h"
#include <rct_optimizations/circle_fit.h>
#ifndef NOBS
#define NOBS 2
#endif
static CircleFitProblem pb;
static Vals oracle(double x,double y,double r){ Vals v; for(auto&o:pb.observations){ double dx=o.x()-x,dy=o.y()-y; v.push_back(r*r-(dx*dx+dy*dy)); } return v; }
void vp_main(){
  for(int i=0;i<NOBS;i++) pb.observations.push_back(vec2(S("p",i)));
  pb.x_center_initial=vp_real("gx"); pb.y_center_initial=vp_real("gy"); pb.radius_initial=vp_real("gr"); vp_assume(pb.radius_initial>=0);
  vpc::on_block=[](int,int i,const vpc::Block& b,double* v){ for(int j=0;j<b.size;j++) v[j]=vp_real(S("sol",i,j).c_str()); };
  CircleFitResult r=optimize(pb);
  vp_check("one-solve",vpc::records.size()==1); auto& R=vpc::records[0]; no_loss(R); vp_reach("solved");
  vpc::evaluate(false); vpc::evaluate(true);
  match("start",flat(R,false),oracle(pb.x_center_initial,pb.y_center_initial,pb.radius_initial));
  match("solution",flat(R,true),oracle(r.x_center,r.y_center,r.radius));
  vp_check_le("radius-not-negative",0,r.radius);
  double c[3]={vp_real("c0"),vp_real("c1"),vp_real("c2")},a,b; CircleDistCost k(pb.observations[0].x(),pb.observations[0].y());
  k(c,&a); k(c,c+1,c+2,&b); vp_check_eq("call-forms-agree",a,b);
}
