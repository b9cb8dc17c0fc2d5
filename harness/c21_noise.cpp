// Noise qualification.  MODE 0: position and orientation statistics over any subset of converged pose estimates (the
// estimation is an environment model); MODE 1: symmetric pairs of quaternions by any angle; MODE 2: sign independence.
#include "rigid.h"
#include <cmath>
#include <map>
#include <rct_optimizations/validation/noise_qualification.h>
#ifndef DIM
#define DIM 2
#endif
using namespace rct_optimizations; using namespace rg;
static std::vector<PnPResult> answers; static std::vector<double> tags; static bool wrong=false; static std::vector<int> seen;
// the answer belongs to the problem, whatever the order in which the problems are solved
static PnPResult find(double x){ for(size_t i=0;i<tags.size();i++) if(vp_peek(x)==vp_peek(tags[i])){ seen.push_back((int)i); return answers[i]; } wrong=true; return answers[0]; }
namespace rct_optimizations { PnPResult optimize(const PnPProblem& p){ if(DIM!=2) wrong=true; return find(p.correspondences[0].in_target(0)); }
PnPResult optimize(const PnPProblem3D& p){ if(DIM!=3) wrong=true; return find(p.correspondences[0].in_target(0)); } }
typedef Eigen::Quaterniond Q;
static double dq(const Q& a,const Q& b){ double s=a.w()*b.w()+a.x()*b.x()+a.y()*b.y()+a.z()*b.z(); return s<0?-s:s; }
void vp_main(){
#if MODE==0
  static const int RO[3]={1,1,1}; std::vector<Iso> ts; int n=0; V3 sum=V3::Zero(),sq=V3::Zero();
#if DIM==2
  std::vector<PnPProblem> ps(3); Correspondence2D3D c; c.in_image.setZero();
#else
  std::vector<PnPProblem3D> ps(3); Correspondence3D3D c; c.in_image.setZero();
#endif
  int rk=vp_concrete(vp_int("rotation",0,5));
  for(int i=0;i<3;i++){ double tag=i+1; tags.push_back(tag); c.in_target=V3(tag,0,0); ps[i].correspondences.push_back(c); ps[i].camera_to_target_guess=Iso::Identity(); PnPResult r; r.converged=vp_concrete(vp_int(S("ok",i).c_str(),0,1)); r.initial_cost_per_obs=r.final_cost_per_obs=vp_real(S("cost",i).c_str()); r.camera_to_target=pose(S("t",i)+"_",rk); answers.push_back(r);
    if(r.converged){ n++; for(int j=0;j<3;j++){ double v=r.camera_to_target(j,3); sum(j)=sum(j)+v; sq(j)=sq(j)+v*v; } } }
  vp_assume(n>=1);
#if DIM==2
  PnPNoiseStat st=qualifyNoise2D(ps);
#else
  PnPNoiseStat st=qualifyNoise3D(ps);
#endif
  vp_reach("measured"); vp_check("right-problems",!wrong); int cnt[3]={0,0,0}; for(int i:seen) cnt[i]++; vp_check("each-solved-once",cnt[0]==1&&cnt[1]==1&&cnt[2]==1);
  for(int j=0;j<3;j++){ vp_check_eq("mean-position",st.p_stat.mean(j)*n,sum(j)); vp_check("not-negative",st.p_stat.stdev(j)>=0); vp_check_eq("deviation-position",st.p_stat.stdev(j)*st.p_stat.stdev(j)*(n*n),sq(j)*n-sum(j)*sum(j)); }
  near_("mean-orientation",dq(st.q_stat.mean,Q(rot(rk).linear())),1.0); if(n>1) near_("deviation-orientation",st.q_stat.stdev,0.0);
#elif MODE==1
  double cs[2]; vp_unit("half",2,cs); double c=cs[0],s=cs[1]; vp_assume(s>0.001); vp_assume(c>s+0.001); int ax=vp_concrete(vp_int("axis",0,2)); V3 a=V3::Zero(),b=V3::Zero(); a(ax)=s; b(ax)=-s;
  Q q[2]={Q(c,a(0),a(1),a(2)),Q(c,b(0),b(1),b(2))}; for(int i=0;i<2;i++) if(vp_concrete(vp_int(S("flip",i).c_str(),0,1))) q[i].coeffs()=-q[i].coeffs(); int o=vp_concrete(vp_int("order",0,1));
  QuaternionStats st=computeQuaternionStats({q[o],q[1-o]}); vp_reach("measured"); double e[4]={st.mean.w(),st.mean.x(),st.mean.y(),st.mean.z()}; vp_check_eq("mean",e[0]*e[0],1.0); for(int i=1;i<4;i++) vp_check_eq("mean",e[i],0.0);
  double d=2*std::atan2(s,c); vp_check("not-negative",st.stdev>=0); vp_check_eq("deviation",st.stdev*st.stdev,2*d*d);
#else
  static const double QS[4][4]={{0.9,0.1,-0.2,0.3},{0.85,0.15,-0.1,0.25},{0.8,0.3,-0.3,0.2},{0.95,-0.1,-0.15,0.35}}; int n=vp_concrete(vp_int("count",2,4)); std::vector<Q> a,b; Eigen::Matrix4d M=Eigen::Matrix4d::Zero();
  for(int i=0;i<n;i++){ Q q(QS[i][0],QS[i][1],QS[i][2],QS[i][3]); q.normalize(); a.push_back(q); if(vp_concrete(vp_int(S("flip",i).c_str(),0,1))) q.coeffs()=-q.coeffs(); b.push_back(q); M+=q.coeffs()*q.coeffs().transpose(); }
  QuaternionStats st=computeQuaternionStats(b),s0=computeQuaternionStats(a); vp_reach("measured"); near_("unit",st.mean.norm(),1.0); near_("sign-independent",dq(st.mean,s0.mean),1.0); near_("sign-independent",st.stdev,s0.stdev);
  // the mean is the eigenvector of the largest eigenvalue: it maximises the quadratic form, found here by power iteration
  Eigen::Vector4d v=Eigen::Vector4d(0.5,0.5,0.5,0.5); for(int k=0;k<200;k++){ v=M*v; v/=v.norm(); } near_("mean",std::fabs(v.dot(st.mean.coeffs())),1.0);
  double sq=0; for(auto& q:a){ double d=2*std::acos(std::min(1.0,std::fabs(v.dot(q.coeffs())))); sq+=d*d; } near_("deviation",st.stdev,std::sqrt(sq/(n-1)));
#endif
}
