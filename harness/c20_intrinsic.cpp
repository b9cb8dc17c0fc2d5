// Intrinsic calibration validation.  MODE 0: one target, MODE 1: a set of observations.  The pose estimation is an
// environment model: any pose, cost and convergence flag.
#include "rigid.h"
#include <cmath>
#include <rct_optimizations/pnp.h>
#include <rct_optimizations/validation/camera_intrinsic_calibration_validation.h>
using namespace rct_optimizations; using namespace rg;
struct Call { Correspondence2D3D::Set corr; CameraIntrinsics in; Iso guess; };
static std::vector<Call> calls; static std::vector<PnPResult> answers;
namespace rct_optimizations { PnPResult optimize(const PnPProblem& p){ calls.push_back({p.correspondences,p.intr,p.camera_to_target_guess}); if(calls.size()<=answers.size()) return answers[calls.size()-1]; vp_check("two-solves-per-target",false); return answers[0]; } 
PnPResult optimize(const PnPProblem3D&){ vp_check("two-dimensional",false); return answers[0]; } }
static CameraIntrinsics cam(){ CameraIntrinsics c; c.fx()=vp_real("fx"); c.fy()=vp_real("fy"); c.cx()=vp_real("cx"); c.cy()=vp_real("cy"); return c; }
static Correspondence2D3D::Set corrs(const std::string& n,int k){ Correspondence2D3D::Set s; for(int i=0;i<k;i++){ Correspondence2D3D c; c.in_image=Eigen::Vector2d(vp_real(S(n+"u",i).c_str()),vp_real(S(n+"v",i).c_str())); c.in_target=vec(S(n+"p",i)+"_"); s.push_back(c); } return s; }
static void call_ok(int c,const Correspondence2D3D::Set& all,const CameraIntrinsics& in,const Iso& guess){ int n=all.size(),h=n/2,a=c%2?h:0,b=c%2?n:h; auto& k=calls[c];
  vp_check("half-of-the-correspondences",(int)k.corr.size()==b-a); if((int)k.corr.size()!=b-a) return;
  for(int i=a;i<b;i++){ for(int j=0;j<2;j++) vp_check_eq("half-of-the-correspondences",k.corr[i-a].in_image(j),all[i].in_image(j)); for(int j=0;j<3;j++) vp_check_eq("half-of-the-correspondences",k.corr[i-a].in_target(j),all[i].in_target(j)); }
  for(int i=0;i<4;i++) vp_check_eq("intrinsics-used",k.in.values[i],in.values[i]); same("guess-used",k.guess,guess); }
static PnPResult answer(const std::string& n,const Iso& t){ PnPResult r; r.converged=vp_concrete(vp_int((n+"ok").c_str(),0,1)); r.initial_cost_per_obs=vp_real((n+"ic").c_str()); r.final_cost_per_obs=vp_real((n+"cost").c_str()); r.camera_to_target=t; return r; }
void vp_main(){ CameraIntrinsics in=cam(); double thr=vp_real("threshold");
#if MODE==0
  int n=vp_concrete(vp_int("correspondences",2,5)),r1=vp_concrete(vp_int("r1",0,3)),r2=vp_concrete(vp_int("r2",0,5)); int df=vp_concrete(vp_int("defaults",0,1)); auto cs=corrs("c",n); Iso g=df?Iso(Iso::Identity()):pose("g",1); if(df) thr=1.0; Iso t1=pose("t",r1),t2=pose("s",r2); answers={answer("a",t1),answer("b",t2)};
  bool good=true; for(auto& a:answers){ if(!a.converged) good=false; if(a.final_cost_per_obs>thr) good=false; }
  bool ok=true; VirtualCorrespondenceResult r; try { r=df?measureVirtualTargetDiff(cs,in):measureVirtualTargetDiff(cs,in,g,thr); } catch(const std::exception&){ ok=false; }
  vp_check("bad-pose-estimate-rejected",ok==good); if(!ok){ vp_reach("rejected"); return; } vp_reach("measured"); vp_check("two-solves-per-target",calls.size()==2); if(calls.size()!=2) return;
  for(int c=0;c<2;c++) call_ok(c,cs,in,g); V3 d; for(int i=0;i<3;i++) d(i)=t1(i,3)-t2(i,3);
  vp_check("not-negative",r.positional_error>=0); vp_check_eq("translation-distance",r.positional_error*r.positional_error,dot(d,d)); near_("rotation-angle",r.angular_error,angle(r1,r2)); same("t1-to-t2",r.t1_to_t2,mul(inv(t1),t2));
#else
  static const int RO[3][2]={{0,2},{1,1},{2,4}}; Observation2D3D::Set os; Iso cm=pose("cm",1),tm=pose("tm",2),base=pose("base",3); std::vector<Iso> g; V3 step; double sum=0,asum=0,sq=0,asq=0; bool good=true; int odd=vp_concrete(vp_int("odd",0,NOBS)); double d[NOBS+1];
  for(int o=0;o<NOBS;o++){ Observation2D3D b; b.to_camera_mount=pose(S("c",o)+"_",(o+2)%6); b.to_target_mount=pose(S("t",o)+"_",(o+4)%6); b.correspondence_set=corrs(S("k",o)+"_",odd==o?3:2); g.push_back(mul(inv(mul(b.to_camera_mount,cm)),mul(mul(base,b.to_target_mount),tm))); os.push_back(b);
    Iso t1=pose(S("p",o)+"_",RO[o][0]),t2=t1; for(int i=0;i<3;i++) for(int j=0;j<3;j++) t2(i,j)=R[RO[o][1]][i][j]; d[o]=vp_real(S("d",o).c_str()); vp_assume(d[o]>0); t2(o,3)=t2(o,3)+d[o]; double an=angle(RO[o][0],RO[o][1]); sum=sum+d[o]; asum+=an; sq=sq+d[o]*d[o]; asq+=an*an;
    answers.push_back(answer(S("a",o),t1)); answers.push_back(answer(S("b",o),t2)); }
  for(auto& a:answers){ if(!a.converged) good=false; if(a.final_cost_per_obs>thr) good=false; if(!good) break; }
  bool uneven=odd<NOBS&&NOBS>1,ok=true,mism=false; IntrinsicCalibrationAccuracyResult r; try { r=measureIntrinsicCalibrationAccuracy(os,in,cm,tm,base,thr); } catch(const OptimizationException&){ ok=false; mism=true; } catch(const std::exception&){ ok=false; }
  if(uneven){ vp_check("different-sizes-rejected",mism); vp_reach("uneven"); return; } vp_check("bad-pose-estimate-rejected",ok==good); if(!ok){ vp_reach("rejected"); return; }
  vp_reach("measured"); vp_check("two-solves-per-target",calls.size()==2*NOBS); if(calls.size()!=2*NOBS) return; if(NOBS==0) return;
  for(int c=0;c<2*NOBS;c++) call_ok(c,os[c/2].correspondence_set,in,g[c/2]);
  vp_check_eq("mean-position",r.pos_error.first*NOBS,sum); vp_check("not-negative",r.pos_error.second>=0); vp_check_eq("deviation-position",r.pos_error.second*r.pos_error.second*(NOBS*NOBS),sq*NOBS-sum*sum);
  near_("mean-angle",r.ang_error.first,asum/NOBS); near_("deviation-angle",r.ang_error.second*r.ang_error.second,asq/NOBS-asum*asum/(NOBS*NOBS));
#endif
}
