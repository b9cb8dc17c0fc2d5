// DH chains: forward kinematics against the convention written out, prefixes, offsets, tables and rejected input.
#include "rotvec.h"
#include <ceres/jet.h>
#include <rct_optimizations/dh_chain.h>
#include <sstream>
using namespace rct_optimizations;
#ifndef DOF
#define DOF 2
#endif
typedef Eigen::Matrix4d M4;
static std::string S(const char* a,int i){ return a+std::to_string(i); }
static std::string S(const char* a,int i,int j){ return a+std::to_string(i)+"_"+std::to_string(j); }
static M4 dh(double d,double th,double r,double al){ double c=std::cos(th),s=std::sin(th),ca=std::cos(al),sa=std::sin(al); M4 m; m<<c,-s*ca,s*sa,r*c, s,c*ca,-c*sa,r*s, 0,sa,ca,d, 0,0,0,1; return m; }
static M4 mul(const M4& a,const M4& b){ M4 m; for(int i=0;i<4;i++) for(int j=0;j<4;j++){ double s=0; for(int k=0;k<4;k++) s=s+a(i,k)*b(k,j); m(i,j)=s; } return m; }
template<class T> static void same(const char* n,const T& t,const M4& m){ for(int i=0;i<4;i++) for(int j=0;j<4;j++) vp_check_eq(n,t.matrix()(i,j),m(i,j)); }
void vp_main(){
  std::vector<DHTransform> ts; double P[DOF][4],O[DOF][4],q[DOF]; bool rev[DOF]; Eigen::MatrixX4d off(DOF,4); Eigen::VectorXd jv(DOF);
  for(int i=0;i<DOF;i++){ rev[i]=false; if(vp_concrete(vp_int(S("revolute",i).c_str(),0,1))) rev[i]=true;
    Eigen::Vector4d p; for(int k=0;k<4;k++){ p(k)=P[i][k]=vp_real(S("p",i,k).c_str()); off(i,k)=O[i][k]=vp_real(S("o",i,k).c_str()); } jv(i)=q[i]=vp_real(S("q",i).c_str());
    DHTransform t(p,rev[i]?DHJointType::REVOLUTE:DHJointType::LINEAR,S("joint",i),1); t.min=vp_real(S("min",i).c_str()); t.max=vp_real(S("max",i).c_str()); vp_assume(t.min<=t.max); ts.push_back(t); }
  double bq[4]; vp_unit("base",4,bq); Eigen::Isometry3d B=Eigen::Isometry3d::Identity(); B.linear()=quat_matrix(bq); B.translation()=real3("bt");
  DHChain chain(ts,B); vp_reach("built");
  auto ref=[&](int n,bool o){ M4 m=B.matrix(); for(int i=0;i<n;i++) m=mul(m,dh(P[i][0]+(o?O[i][0]:0.0)+(rev[i]?0.0:q[i]),P[i][1]+(o?O[i][1]:0.0)+(rev[i]?q[i]:0.0),P[i][2]+(o?O[i][2]:0.0),P[i][3]+(o?O[i][3]:0.0))); return m; };
  for(int n=0;n<=DOF;n++){ Eigen::VectorXd v=jv.head(n); same("plain",chain.getFK<double>(v),ref(n,false)); same("offset",chain.getFK<double>(v,off),ref(n,true)); Eigen::MatrixX4d z=Eigen::MatrixX4d::Zero(DOF,4); same("zero-offset",chain.getFK<double>(v,z),ref(n,false)); }
  for(int i=0;i<DOF;i++){ same("relative",chain.getRelativeTransform(i,q[i]),dh(P[i][0]+(rev[i]?0.0:q[i]),P[i][1]+(rev[i]?q[i]:0.0),P[i][2],P[i][3])); }
#ifndef NOJET
  { typedef ceres::Jet<double,1> J; Eigen::Matrix<J,Eigen::Dynamic,1> v(1); v(0)=J(q[0],0); auto f=chain.getFK<J>(v); M4 m=ref(1,false); double h[4]={0,0,0,0};
    for(int i=0;i<3;i++) for(int j=0;j<4;j++) vp_check_eq("jet-value",f.matrix()(i,j).a,m(i,j));
    for(int i=0;i<3;i++) vp_check_eq("jet-derivative",f.matrix()(i,3).v[0],rev[0]? P[0][2]*(-std::sin(P[0][1]+q[0])*B(i,0)+std::cos(P[0][1]+q[0])*B(i,1)): B(i,2)); (void)h; }
#endif
  // descriptions
  vp_check("dof",chain.dof()==DOF); auto tab=chain.getDHTable(); auto ty=chain.getJointTypes(); auto lab=chain.getParamLabels(); bool shape=tab.rows()==DOF&&ty.size()==DOF&&lab.size()==DOF; vp_check("tables-shape",shape); if(!shape) return;
  const char* suf[4]={"_d","_theta","_r","_alpha"}; 
  for(int i=0;i<DOF;i++){ vp_check("types",ty[i]==(rev[i]?DHJointType::REVOLUTE:DHJointType::LINEAR)); for(int k=0;k<4;k++){ vp_check_eq("table",tab(i,k),P[i][k]); vp_check("labels",lab[i][k]==S("joint",i)+suf[k]); } }
  same("base-offset",chain.getBaseOffset(),B.matrix());
  { DHChain moved(chain,off); same("offset-chain",moved.getFK<double>(jv),ref(DOF,true)); auto l=moved.getParamLabels(); auto t2=moved.getJointTypes(); vp_check("offset-chain-names",l==lab&&t2==ty);
    auto r=moved.createUniformlyRandomPose(); vp_check("random-pose-size",r.size()==DOF); if(r.size()==DOF) for(int i=0;i<DOF;i++){ vp_check_le("random-pose-above-minimum",ts[i].min,r(i)); vp_check_le("random-pose-below-maximum",r(i),ts[i].max); } }
  { auto r=chain.createUniformlyRandomPose(); for(int i=0;i<DOF;i++){ vp_check_le("random-above-minimum",ts[i].min,r(i)); vp_check_le("random-below-maximum",r(i),ts[i].max); } }
  // rejected input
  int bad=0; { Eigen::VectorXd v=Eigen::VectorXd::Zero(DOF+1); try { chain.getFK<double>(v); } catch(const std::exception&){ bad++; } }
  { Eigen::MatrixX4d o=Eigen::MatrixX4d::Zero(DOF-1,4); Eigen::VectorXd v=jv; try { chain.getFK<double>(v,o); } catch(const std::exception&){ bad++; } }
  int ix=vp_int("index",-2,DOF+1); bool thrown=false; try { chain.getRelativeTransform(ix,0.5); } catch(const std::exception&){ thrown=true; }
  vp_check("wrong-sizes-rejected",bad==2); vp_check("index-checked",thrown==(ix<0||ix>=DOF));
}
