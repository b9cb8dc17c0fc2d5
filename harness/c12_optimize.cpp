// Kinematic calibration as a whole: what the solver is given, what it may change and what is returned.  PROB 0: features,
// 1: poses.  Rotations of the poses and of the solution are concrete.
#include "calib.h"
#include <rct_optimizations/dh_chain_kinematic_calibration.h>
#include <rct_optimizations/maximum_likelihood.h>
#include <map>
#define MB0 -1
#ifndef MB1
#define MB1 7
#endif
#ifndef DC
#define DC 1
#endif
#ifndef DT
#define DT 1
#endif
static double num(const std::string& n){ return vp_real_in(n.c_str(),-1000,1000); }
static const double AA[][3]={{0.3,-0.2,0.5},{0,0,0},{-2.0,1.5,0.7},{0,0.4,-0.9}};
static Iso pose(const std::string& n,int k){ Iso o=Iso::Identity(); double a=Eigen::Vector3d(AA[k][0],AA[k][1],AA[k][2]).norm(); if(a>0) o.linear()=Eigen::AngleAxisd(a,Eigen::Vector3d(AA[k][0],AA[k][1],AA[k][2])/a).toRotationMatrix(); for(int i=0;i<3;i++) o(i,3)=num(n+std::to_string(i)); return o; }
static void near_(const char* n,double a,double b,double t=1e-6){ vp_check_le(n,a-b,t); vp_check_le(n,b-a,t); }
static std::vector<DHTransform> chain(const std::string& nm,int n){ std::vector<DHTransform> t; for(int i=0;i<n;i++) t.emplace_back(Eigen::Vector4d(num(S(nm,i)+"d"),0.4+0.2*i,num(S(nm,i)+"r"),0.7-0.3*i),i%2?DHJointType::LINEAR:DHJointType::REVOLUTE,S(nm,i),1); return t; }
static Eigen::VectorXd joints(const std::string& nm,int n,int o){ Eigen::VectorXd q(n); for(int i=0;i<n;i++) q(i)=i%2?num(S(nm,i)+"q"):0.8-0.5*o; return q; }
// value written to a free parameter
static double written(int block,int e){ if(block<2){ int n=block==0?DC:DT; int k=e/n; return k%2?0.01*(block+1)+0.02*e:num(S("off",block,e)); } if(block%2) return 0.1*(e+1)+0.3*block-1; return num(S("pos",block,e)); }
static std::string ref(int b,int e){ return std::to_string(b)+"."+std::to_string(e); }
static double entry(const std::string& a,const std::string& b){ if(a==b){ double v=vp_real(("var"+a).c_str()); vp_assume(v>1e-6); return v; } return a<b?vp_real(("cov"+a+"_"+b).c_str()):vp_real(("cov"+b+"_"+a).c_str()); }
static Eigen::Vector3d angle_axis(const Iso& T){ Eigen::AngleAxisd a(Eigen::Matrix3d(T.linear())); return a.angle()*a.axis(); }
void vp_main(){
  static std::map<const double*,int> which;   // block of the problem -> place in the documented order
#if PROB==0
  typedef KinematicCalibrationProblem2D3D P;
#else
  typedef KinematicCalibrationProblemPose6D P;
#endif
  P p((DHChain(chain("cam",DC))),(DHChain(chain("tgt",DT)))); Iso g[3]; for(int i=0;i<3;i++) g[i]=pose(S("guess",i),i);
  p.camera_mount_to_camera_guess=g[0]; p.target_mount_to_target_guess=g[1]; p.camera_base_to_target_base_guess=g[2]; p.camera_chain_offset_stdev=vp_real_in("cs",0.001,10); p.target_chain_offset_stdev=vp_real_in("ts",0.001,10);
  // masks: one block at a time has one, several or all of its parameters masked
  int mb=vp_concrete(vp_int("masked-block",MB0,MB1)),mk=0; int size[8]={4*DC,4*DT,3,3,3,3,3,3}; std::vector<std::vector<char>> fixed(8); for(int b=0;b<8;b++) fixed[b].assign(std::max(size[b],1),0);
  if(mb>=0){ mk=vp_concrete(vp_int("mask",0,2)); if(size[mb]==0) return; if(mk==0) p.mask[mb]={size[mb]-2}; if(mk==1) p.mask[mb]={2,0}; if(mk==2) for(int e=0;e<size[mb];e++) p.mask[mb].push_back(e); for(int e:p.mask[mb]) fixed[mb][e]=1; }
  auto all=[&](int b){ for(int e=0;e<size[b];e++) if(!fixed[b][e]) return false; return true; };
#if PROB==0
  CameraIntrinsics K; K.fx()=num("fx"); K.fy()=num("fy"); K.cx()=num("cx"); K.cy()=num("cy"); p.intr=K;
  for(int o=0;o<2;o++){ KinObservation2D3D ob; ob.camera_chain_joints=joints(S("oc",o),DC,o); ob.target_chain_joints=joints(S("ot",o),DT,o); for(int c=0;c<2-o;c++){ Correspondence2D3D k; k.in_image=Eigen::Vector2d(num(S("u",o,c)),num(S("v",o,c))); k.in_target=Eigen::Vector3d(num(S("x",o,c)),num(S("y",o,c)),num(S("z",o,c))); ob.correspondence_set.push_back(k); } p.observations.push_back(ob); }
#else
  for(int o=0;o<2;o++){ KinematicMeasurement m; m.camera_chain_joints=joints(S("oc",o),DC,o); m.target_chain_joints=joints(S("ot",o),DT,o); m.camera_to_target=pose(S("m",o),o+2); p.observations.push_back(m); }
#endif
  std::vector<std::vector<double>> start; 
  vpc::on_block=[&](int,int i,const vpc::Block& b,double* v){ vp_check("block-size",b.size==size[i]||size[i]==0); for(int e=0;e<b.size;e++) v[e]=written(i,e); };
  vpc::cov=[&](const double* a,int i,const double* b,int j){ auto&R=vpc::records.back(); int x=-1,y=-1; for(size_t k=0;k<R.blocks.size();k++){ if(R.blocks[k].p==a) x=(int)k; if(R.blocks[k].p==b) y=(int)k; } return entry(ref(x,i),ref(y,j)); };
#if PROB==0
  KinematicCalibrationResult r=optimize(p);
#else
  KinematicCalibrationResult r=optimize(p,7.0,ceres::Solver::Options());
#endif
  vp_reach("solved"); vp_check("one-solve",vpc::records.size()==1&&vpc::records[0].blocks.size()==8); if(vpc::records.size()!=1||vpc::records[0].blocks.size()!=8) return; auto&R=vpc::records[0];
  // the guess is the start; masked parameters keep it, the others are what the solver found
  for(int b=2;b<8;b++){ Eigen::Vector3d s=b%2?angle_axis(g[b/2-1]):Eigen::Vector3d(g[b/2-1].translation()); for(int e=0;e<3;e++) near_("guess-is-the-start",R.blocks[b].init[e],s(e)); }
  for(int b=0;b<2;b++) for(int e=0;e<size[b];e++) vp_check_eq("offsets-start-at-zero",R.blocks[b].init[e],0.0);
  for(int b=0;b<8;b++){ if(size[b]==0){ vp_check("missing-chain-constant",R.blocks[b].constant); continue; } if(all(b)) vp_check("masked-block-constant",R.blocks[b].constant); else { std::vector<int> f=R.blocks[b].fixed; std::sort(f.begin(),f.end()); std::vector<int> w; for(int e=0;e<size[b];e++) if(fixed[b][e]) w.push_back(e); vp_check("masked-parameters-frozen",f==w&&!R.blocks[b].constant); } vp_check("unbounded",!R.blocks[b].bounded); }
  auto value=[&](int b,int e){ return R.blocks[b].fin[e]; };
  const Iso* T[3]={&r.camera_mount_to_camera,&r.target_mount_to_target,&r.camera_base_to_target_base}; for(int k=0;k<3;k++) for(int e=0;e<3;e++){ near_("returned-position",(*T[k])(e,3),value(2+2*k,e)); }
  for(int k=0;k<3;k++){ double a[3]={value(3+2*k,0),value(3+2*k,1),value(3+2*k,2)}; Iso o=Iso::Identity(); double n=std::sqrt(a[0]*a[0]+a[1]*a[1]+a[2]*a[2]); if(n>0) o.linear()=Eigen::AngleAxisd(n,Eigen::Vector3d(a[0]/n,a[1]/n,a[2]/n)).toRotationMatrix(); for(int i=0;i<3;i++) for(int j=0;j<3;j++) near_("returned-rotation",(*T[k])(i,j),o(i,j)); }
  const Eigen::MatrixX4d* off[2]={&r.camera_chain_dh_offsets,&r.target_chain_dh_offsets}; int dof[2]={DC,DT}; for(int b=0;b<2;b++){ bool ok=off[b]->rows()==dof[b]&&off[b]->cols()==4; vp_check("offsets-shape",ok); if(ok) for(int i=0;i<dof[b];i++) for(int k=0;k<4;k++) vp_check_eq("returned-offset",(*off[b])(i,k),value(b,k*dof[b]+i)); }
  // residuals: one cost per measurement, evaluated by the costs the cost harness decides, at the returned values
  for(auto&x:R.res) vp_check("no-loss-function",!x.loss);
  std::vector<double> store[8]; std::vector<const double*> pp; for(int b=0;b<8;b++){ store[b]=R.blocks[b].fin; pp.push_back(store[b].data()); }
  Vals want;
#if PROB==0
  // points in front of the camera
  for(auto&ob:p.observations){ Iso c=p.camera_chain.getFK<double>(ob.camera_chain_joints,r.camera_chain_dh_offsets)*r.camera_mount_to_camera,t=r.camera_base_to_target_base*p.target_chain.getFK<double>(ob.target_chain_joints,r.target_chain_dh_offsets)*r.target_mount_to_target; for(auto&k:ob.correspondence_set){ Eigen::Vector3d x=appinv(c,app(t,k.in_target)); vp_assume(x(2)>1e-3); } }
  for(auto&ob:p.observations) for(auto&k:ob.correspondence_set){ DualDHChainCost2D3D f(k.in_image,k.in_target,K,p.camera_chain,p.target_chain,ob.camera_chain_joints,ob.target_chain_joints); double v[2]; f(pp.data(),v); want.push_back(v[0]); want.push_back(v[1]); }
#else
  for(auto&ob:p.observations){ DualDHChainCostPose6D f(ob,p.camera_chain,p.target_chain,7.0); double v[4]; f(pp.data(),v); for(double q:v) want.push_back(q); }
#endif
  for(int b=0;b<2;b++) if(size[b]&&!all(b)) for(int e=0;e<size[b];e++) want.push_back(value(b,e)/(b==0?p.camera_chain_offset_stdev:p.target_chain_offset_stdev));
  vpc::evaluate(true); match("residual",flat(R,true),want);
  // labels
  std::map<std::string,std::string> lab; static const char* dn[4]={"_d","_theta","_r","_alpha"}; static const char* ax[3]={"x","y","z"}; std::string pn[3]={p.label_camera_mount_to_camera,p.label_target_mount_to_target,p.label_camera_base_to_target};
  for(int b=0;b<8;b++) for(int e=0;e<size[b];e++) if(!fixed[b][e]) lab[b<2?S(b==0?"cam":"tgt",e%dof[b])+dn[e/dof[b]]:pn[b/2-1]+(b%2?"_r":"_")+ax[e]]=ref(b,e);
  // a chain without joints shows up as constant placeholders
  auto dummy=[](const std::string& n){ return n.find("placeholder")!=std::string::npos; }; int named=0,paired=0; std::map<std::string,int> seen;
  for(auto&s:r.covariance.standard_deviations){ if(dummy(s.names.first)){ vp_check_eq("placeholder-constant",s.value,0.0); continue; } named++; auto i=lab.find(s.names.first); bool k=i!=lab.end()&&!seen[s.names.first]++; vp_check("label-known",k); if(k) vp_check_eq("stdev-of-its-parameter",s.value,std::sqrt(entry(i->second,i->second))); }
  vp_check("every-free-parameter-labelled",named==(int)lab.size());
  for(auto&s:r.covariance.covariances){ if(dummy(s.names.first)||dummy(s.names.second)) continue; paired++; auto i=lab.find(s.names.first),j=lab.find(s.names.second); if(i!=lab.end()&&j!=lab.end()) vp_check_eq("covariance-of-its-parameters",s.value,entry(i->second,j->second)); else vp_check("label-known",false); }
  vp_check("pairs",paired==(int)(lab.size()*(lab.size()-1)/2));
}
