// Kinematic calibration costs.  MODE 0: feature residual, one rotated pose at a time.  MODE 1: pose residual, any
// measured pose, nothing rotated.  MODE 2: derivatives given to the solver where all rotations are zero.  MODE 3: pose
// residual with concrete rotations everywhere and any positions.
#include "rotvec.h"
#include <rct_optimizations/dh_chain_kinematic_calibration.h>
#include <ceres/ceres.h>
#include <cmath>
#include <string>
using namespace rct_optimizations;
#ifndef DC
#define DC 1
#endif
#ifndef DT
#define DT 1
#endif
static std::string S(const std::string& a,int i){ return a+std::to_string(i); }
struct M{ double m[3][4]; };
static M mul(const M& a,const M& b){ M o; for(int i=0;i<3;i++) for(int j=0;j<4;j++){ double s=j==3?a.m[i][3]:0.0; for(int k=0;k<3;k++) s=s+a.m[i][k]*b.m[k][j]; o.m[i][j]=s; } return o; }
static M inv(const M& a){ M o; for(int i=0;i<3;i++){ double s=0; for(int j=0;j<3;j++){ o.m[i][j]=a.m[j][i]; s=s-a.m[j][i]*a.m[j][3]; } o.m[i][3]=s; } return o; }
static M dh(double d,double th,double r,double al){ double c=std::cos(th),s=std::sin(th),ca=std::cos(al),sa=std::sin(al); return M{{{c,-s*ca,s*sa,r*c},{s,c*ca,-c*sa,r*s},{0,sa,ca,d}}}; }
static M unit(){ return M{{{1,0,0,0},{0,1,0,0},{0,0,1,0}}}; }
static const double AA[][3]={{0,0,0},{0.3,-0.2,0.5},{0,0,1e-5},{-2.0,1.5,0.7},{0,3.0,-0.5}};
static Eigen::Matrix3d rodrigues(const double* a){ double n=std::sqrt(a[0]*a[0]+a[1]*a[1]+a[2]*a[2]); Eigen::Matrix3d o=Eigen::Matrix3d::Identity(); if(n>0){ double k[3]={a[0]/n,a[1]/n,a[2]/n},c=std::cos(n),s=std::sin(n); for(int i=0;i<3;i++) for(int j=0;j<3;j++) o(i,j)=(i==j?c:0)+(1-c)*k[i]*k[j]; o(0,1)-=s*k[2]; o(0,2)+=s*k[1]; o(1,0)+=s*k[2]; o(1,2)-=s*k[0]; o(2,0)-=s*k[1]; o(2,1)+=s*k[0]; } return o; }
static double num(const std::string& n){
#if MODE==3
  return vp_real_in(n.c_str(),-1000,1000);
#else
  return vp_real(n.c_str());
#endif
}
static double ang(double v){ return MODE==3?v:0.0; }
static M of(const Eigen::Matrix3d& R,const double* t){ M o; for(int i=0;i<3;i++){ for(int j=0;j<3;j++) o.m[i][j]=R(i,j); o.m[i][3]=t[i]; } return o; }
struct Chain{ int n; std::vector<DHTransform> ts; std::vector<double> P,q; std::vector<bool> rev; Eigen::VectorXd jv; 
  Chain(const std::string& name,int n_,int sym):n(n_),jv(n_){ for(int i=0;i<n;i++){ std::string nm=S(name,i); bool r=i>0?!rev[0]:vp_concrete(vp_int((nm+"_revolute").c_str(),0,1)); rev.push_back(r); Eigen::Vector4d p; 
    for(int k=0;k<4;k++){ bool angle=k&1; p(k)=angle&&!sym?ang(0.4+0.3*k+0.2*i):num(nm+"_p"+std::to_string(k)); P.push_back(p(k)); } double v=r&&!sym?ang(0.7-0.4*i):num(nm+"_q"); q.push_back(v); jv(i)=v; ts.emplace_back(p,r?DHJointType::REVOLUTE:DHJointType::LINEAR,nm,1); } }
  M fk(const double* off) const { M m=unit(); for(int i=0;i<n;i++){ auto o=[&](int k){ return off[k*n+i]; }; m=mul(m,dh(P[4*i]+o(0)+(rev[i]?0.0:q[i]),P[4*i+1]+o(1)+(rev[i]?q[i]:0.0),P[4*i+2]+o(2),P[4*i+3]+o(3))); } return m; } };
static void near_(const char* n,double a,double b){ vp_check_le(n,a-b,1e-9); vp_check_le(n,b-a,1e-9); }
void vp_main(){
  int sc=0,st=0; 
#ifndef ANGLES
#define ANGLES 3
#endif
#if MODE!=1&&MODE!=3
  { int s=vp_concrete(vp_int("angles",0,ANGLES<2?ANGLES:ANGLES==3?3:1)); if(s&&ANGLES==2) s=2; sc=s&1; st=s&2; }   // whose joint angles are arbitrary
#endif
  Chain cc("camera",DC,sc),tc("target",DT,st); std::vector<double> p[8]; p[0].resize(std::max(4*DC,4)); p[1].resize(std::max(4*DT,4));
  for(int i=0;i<DC;i++) for(int k=0;k<4;k++) p[0][k*DC+i]=(k&1)&&!sc?ang(0.01*(k+1)):num("oc"+std::to_string(i)+std::to_string(k));
  for(int i=0;i<DT;i++) for(int k=0;k<4;k++) p[1][k*DT+i]=(k&1)&&!st?ang(-0.02*(k+1)):num("ot"+std::to_string(i)+std::to_string(k));
  Eigen::Matrix3d R[4]; int turned=0;
#if MODE==0
  if(!(DC>1&&sc)) turned=vp_concrete(vp_int("turned",0,3));   // the pose which is rotated
#endif
#if MODE==3
  int menu=vp_concrete(vp_int("rotations",0,4));
#endif
  for(int b=1;b<4;b++){ Eigen::Vector3d a(0,0,0); R[b]=Eigen::Matrix3d::Identity(); if(b==turned) a=rotvec("rot",R[b],1e-6);
#if MODE==3
    for(int i=0;i<3;i++) a(i)=AA[(menu+b)%5][i]; R[b]=rodrigues(a.data());
#endif
    for(int i=0;i<3;i++){ p[2*b].push_back(num("t"+std::to_string(b)+std::to_string(i))); p[2*b+1].push_back(a(i)); } }
  auto P=[&](int b){ return of(R[b],p[2*b].data()); };
  DHChain camera(cc.ts),target(tc.ts); std::vector<const double*> pp; for(auto&v:p) pp.push_back(v.data());
  auto predict=[&](){ M cam=mul(cc.fk(p[0].data()),P(1)), tgt=mul(P(3),mul(tc.fk(p[1].data()),P(2))); return mul(inv(cam),tgt); };
  vp_reach("evaluated");
#if MODE==0||MODE==2
  CameraIntrinsics K; K.fx()=vp_real("fx"); K.fy()=vp_real("fy"); K.cx()=vp_real("cx"); K.cy()=vp_real("cy"); Eigen::Vector2d o(vp_real("u"),vp_real("v")); Eigen::Vector3d x(vp_real("x"),vp_real("y"),vp_real("z"));
  DualDHChainCost2D3D f(o,x,K,camera,target,cc.jv,tc.jv); M ct=predict(); double c[3]; for(int i=0;i<3;i++){ double s=ct.m[i][0]*x(0); s=s+ct.m[i][1]*x(1); s=s+ct.m[i][2]*x(2); c[i]=s+ct.m[i][3]; } if(c[2]<0) vp_assume(c[2]<-1e-6); else vp_assume(c[2]>1e-6);
#endif
#if MODE==0
  double r[2]={0,0}; vp_check("evaluates",f(pp.data(),r)); vp_check_eq("residual-u",r[0],K.fx()*c[0]/c[2]+K.cx()-o(0)); vp_check_eq("residual-v",r[1],K.fy()*c[1]/c[2]+K.cy()-o(1));
#elif MODE==1||MODE==3
  double mt[3]={num("mx"),num("my"),num("mz")},w;
#if MODE==3
  w=100; int mr=vp_concrete(vp_int("measured",0,4)); M mm=of(rodrigues(AA[mr]),mt);
#else
  w=vp_real("weight"); double mq[4]; vp_unit("measured",4,mq); if(4*mq[0]*mq[0]<1) vp_assume(4*mq[0]*mq[0]<0.99); else vp_assume(4*mq[0]*mq[0]>1.01); M mm=of(quat_matrix(mq),mt);
#endif
  KinematicMeasurement km; km.camera_chain_joints=cc.jv; km.target_chain_joints=tc.jv; km.camera_to_target=Eigen::Isometry3d::Identity(); for(int i=0;i<3;i++) for(int j=0;j<4;j++) km.camera_to_target(i,j)=mm.m[i][j];
  DualDHChainCostPose6D f(km,camera,target,w); double r[4]={0,0,0,0}; vp_check("evaluates",f(pp.data(),r)); M e=mul(mm,inv(predict()));
#if MODE==3
  for(int i=0;i<3;i++){ vp_check_le("residual-position",r[i],e.m[i][3]+1e-6); vp_check_le("residual-position",e.m[i][3],r[i]+1e-6); }
  double s2=0; for(int i=0;i<3;i++) for(int j=0;j<3;j++) s2+=(e.m[i][j]-(i==j))*(e.m[i][j]-(i==j)); double a=2*std::asin(std::min(1.0,std::sqrt(s2/8))); vp_check_le("residual-orientation",std::abs(r[3]-w*a),1e-6);
#else
  for(int i=0;i<3;i++) vp_check_eq("residual-position",r[i],e.m[i][3]);
  double v=std::sqrt(mq[1]*mq[1]+mq[2]*mq[2]+mq[3]*mq[3]),a=mq[0]; if(a<0) a=-a; vp_check_eq("residual-orientation",r[3],w*2*std::atan2(v,a));
#endif
#else
  auto* fn=new ceres::DynamicAutoDiffCostFunction<DualDHChainCost2D3D>(new DualDHChainCost2D3D(f)); for(auto&v:p) fn->AddParameterBlock((int)v.size()); fn->SetNumResiduals(2); double r[2]; std::vector<std::vector<double>> J; std::vector<double*> jp; for(auto&v:p) J.emplace_back(2*v.size()); for(auto&j:J) jp.push_back(j.data());
  vp_check("evaluates",fn->Evaluate(pp.data(),r,jp.data()));
  // movement of the point in the camera frame for a unit change of each pose parameter
  M C=mul(cc.fk(p[0].data()),P(1)),B=P(3),F=tc.fk(p[1].data()),T=P(2);
  auto app=[](const M& a,const double* v,double* o){ for(int i=0;i<3;i++){ double s=a.m[i][0]*v[0]; s=s+a.m[i][1]*v[1]; s=s+a.m[i][2]*v[2]; o[i]=s+a.m[i][3]; } }; auto rot=[](const M& a,const double* v,double* o){ for(int i=0;i<3;i++){ double s=a.m[i][0]*v[0]; s=s+a.m[i][1]*v[1]; o[i]=s+a.m[i][2]*v[2]; } };
  double xt[3]={x(0),x(1),x(2)},y1[3],y2[3]; app(T,xt,y1); app(F,y1,y2); M Ci=inv(C);
  for(int b=2;b<8;b++) for(int i=0;i<3;i++){ double e[3]={0,0,0},d[3],g[3]; e[i]=1; bool tr=b%2==0;
    auto cross=[&](const double* v,double* o){ o[0]=e[1]*v[2]-e[2]*v[1]; o[1]=e[2]*v[0]-e[0]*v[2]; o[2]=e[0]*v[1]-e[1]*v[0]; };
    if(b<4){ if(tr) for(int k=0;k<3;k++) d[k]=-e[k]; else { cross(c,d); for(int k=0;k<3;k++) d[k]=-d[k]; } }
    else if(b<6){ if(tr) for(int k=0;k<3;k++) g[k]=e[k]; else cross(xt,g); double h[3]; rot(F,g,h); rot(Ci,h,d); }
    else { if(tr) for(int k=0;k<3;k++) g[k]=e[k]; else cross(y2,g); rot(Ci,g,d); }
    vp_check_eq(tr?"derivative-position":"derivative-rotation",J[b][i],K.fx()*(d[0]*c[2]-c[0]*d[2])/(c[2]*c[2])); vp_check_eq(tr?"derivative-position":"derivative-rotation",J[b][3+i],K.fy()*(d[1]*c[2]-c[1]*d[2])/(c[2]*c[2])); }
  delete fn;
#endif
}
