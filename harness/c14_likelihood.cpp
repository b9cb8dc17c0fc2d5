// z-scores of the maximum likelihood cost, plain and differentiated scalars; rejection of mismatched sizes.
#include "calib.h"
#include <rct_optimizations/maximum_likelihood.h>
#include <ceres/jet.h>
void vp_main(){
  int n=ROWS*COLS; Eigen::ArrayXXd mean(ROWS,COLS),sd(ROWS,COLS); std::vector<double> x(n);
  for(int c=0;c<COLS;c++) for(int r=0;r<ROWS;r++){ mean(r,c)=vp_real(S("m",r,c).c_str()); sd(r,c)=vp_real(S("s",r,c).c_str()); vp_assume(sd(r,c)>1e-6||sd(r,c)<-1e-6); }
  for(int i=0;i<n;i++) x[i]=vp_real(S("x",i).c_str());
  MaximumLikelihood ml(mean,sd); const double* p=x.data(); std::vector<double> o(n);
  vp_check("evaluates",ml(&p,o.data())); vp_reach("evaluated");
  for(int c=0;c<COLS;c++) for(int r=0;r<ROWS;r++) vp_check_eq("z-score",o[c*ROWS+r],(x[c*ROWS+r]-mean(r,c))/sd(r,c));
  typedef ceres::Jet<double,1> J; std::vector<J> jx(n),jo(n);
  for(int i=0;i<n;i++){ jx[i].a=x[i]; jx[i].v(0)=vp_real(S("d",i).c_str()); }
  const J* jp=jx.data(); vp_check("evaluates",ml(&jp,jo.data()));
  for(int c=0;c<COLS;c++) for(int r=0;r<ROWS;r++){ int i=c*ROWS+r; vp_check_eq("z-score-jet",jo[i].a,(x[i]-mean(r,c))/sd(r,c)); vp_check_eq("z-score-derivative",jo[i].v(0),jx[i].v(0)/sd(r,c)); }
  // sizes
  int a=vp_concrete(vp_int("rows",1,3)),b=vp_concrete(vp_int("cols",1,3)),e=vp_concrete(vp_int("rows2",1,3)),f=vp_concrete(vp_int("cols2",1,3)); bool thrown=false;
  try { MaximumLikelihood q(Eigen::ArrayXXd::Zero(a,b),Eigen::ArrayXXd::Ones(e,f)); } catch(const OptimizationException&){ thrown=true; }
  vp_check("sizes-rejected",thrown==(a!=e||b!=f));
}
