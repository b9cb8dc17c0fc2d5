// YAML: encode, write as text, read, decode.  TYPE selects the data type; WRONG: every field in turn missing, misspelt
// or replaced by something which is not a number.
#include "rigid.h"
#include <cmath>
#include <rct_optimizations/serialization/problems.h>
#include <rct_optimizations/serialization/types.h>
#include <sstream>
using namespace rct_optimizations; using namespace rg;
static double num(const std::string& n){ return vp_real(n.c_str()); }
struct Cmp { virtual void num(double a,double b)=0; virtual void rot(const Iso& a,const Iso& b)=0; };
static const double QS[8][4]={{1,0,0,0},{0.9,0.1,-0.2,0.3},{0.2,0.7,-0.5,0.4},{-0.1,0.3,0.9,0.2},{0,1,0,0},{0,0,1,0},{0.1,-0.2,0.3,-0.9},{1,0,1,0}};
static Iso conc(const std::string& n,int k){ Eigen::Quaterniond q(QS[k][0],QS[k][1],QS[k][2],QS[k][3]); q.normalize(); Iso t=Iso::Identity(); t.linear()=q.toRotationMatrix(); for(int i=0;i<3;i++) t(i,3)=vp_real((n+std::to_string(i)).c_str()); return t; }
static void eq(const std::string& n,double a,double b){ vp_check_eq(n.c_str(),a,b); }
static void eq(const std::string& n,const Iso& a,const Iso& b){ for(int i=0;i<3;i++){ vp_check_eq((n+"-translation").c_str(),a(i,3),b(i,3)); 
#if TYPE==2
  for(int j=0;j<3;j++) vp_check_eq((n+"-rotation").c_str(),a(i,j),b(i,j));
#else
  for(int j=0;j<3;j++) near_((n+"-rotation").c_str(),a(i,j),b(i,j));
#endif
 } }
template<int R> static void eq(const std::string& n,const Eigen::Matrix<double,R,1>& a,const Eigen::Matrix<double,R,1>& b){ for(int i=0;i<R;i++) vp_check_eq(n.c_str(),a(i),b(i)); }
static void eq(const std::string& n,const CameraIntrinsics& a,const CameraIntrinsics& b){ for(int i=0;i<4;i++) vp_check_eq(n.c_str(),a.values[i],b.values[i]); }
template<Eigen::Index A,Eigen::Index B> static void eq(const std::string& n,const Correspondence<A,B>& a,const Correspondence<A,B>& b){ for(int i=0;i<A;i++) vp_check_eq((n+"-image").c_str(),a.in_image(i),b.in_image(i)); for(int i=0;i<B;i++) vp_check_eq((n+"-target").c_str(),a.in_target(i),b.in_target(i)); }
template<Eigen::Index A,Eigen::Index B> static void eq(const std::string& n,const Observation<A,B>& a,const Observation<A,B>& b){ eq(n+"-camera-mount",a.to_camera_mount,b.to_camera_mount); eq(n+"-target-mount",a.to_target_mount,b.to_target_mount); bool s=a.correspondence_set.size()==b.correspondence_set.size(); vp_check((n+"-count").c_str(),s); if(s) for(size_t i=0;i<a.correspondence_set.size();i++) eq(n+"-correspondence",a.correspondence_set[i],b.correspondence_set[i]); }
template<class O> static void eqset(const std::string& n,const O& a,const O& b){ bool s=a.size()==b.size(); vp_check((n+"-count").c_str(),s); if(s) for(size_t i=0;i<a.size();i++) eq(n,a[i],b[i]); }
static void eq(const std::string& n,const ExtrinsicHandEyeProblem2D3D& a,const ExtrinsicHandEyeProblem2D3D& b){ eq(n+"-intrinsics",a.intr,b.intr); eq(n+"-camera",a.camera_mount_to_camera_guess,b.camera_mount_to_camera_guess); eq(n+"-target",a.target_mount_to_target_guess,b.target_mount_to_target_guess); eqset(n+"-observation",a.observations,b.observations); }
static void eq(const std::string& n,const ExtrinsicHandEyeProblem3D3D& a,const ExtrinsicHandEyeProblem3D3D& b){ eq(n+"-camera",a.camera_mount_to_camera_guess,b.camera_mount_to_camera_guess); eq(n+"-target",a.target_mount_to_target_guess,b.target_mount_to_target_guess); eqset(n+"-observation",a.observations,b.observations); }
static void eq(const std::string& n,const ExtrinsicHandEyeResult& a,const ExtrinsicHandEyeResult& b){ vp_check((n+"-converged").c_str(),a.converged==b.converged); eq(n+"-initial-cost",a.initial_cost_per_obs,b.initial_cost_per_obs); eq(n+"-final-cost",a.final_cost_per_obs,b.final_cost_per_obs); eq(n+"-target",a.target_mount_to_target,b.target_mount_to_target); eq(n+"-camera",a.camera_mount_to_camera,b.camera_mount_to_camera); }
template<class C> static C corr(const std::string& n){ C c; for(int i=0;i<c.in_image.size();i++) c.in_image(i)=num(S(n+"i",i)); for(int i=0;i<c.in_target.size();i++) c.in_target(i)=num(S(n+"t",i)); return c; }
template<class O,class C> static O obs(const std::string& n,int k,int r){ O o; o.to_camera_mount=conc(n+"c",r); o.to_target_mount=conc(n+"m",(r+1)%8); for(int i=0;i<k;i++) o.correspondence_set.push_back(corr<C>(S(n+"k",i)+"_")); return o; }
static CameraIntrinsics cam(){ CameraIntrinsics c; for(int i=0;i<4;i++) c.values[i]=num(S("in",i)); return c; }
template<class T> static void round(const char* n,const T& v){ YAML::Node a; a["value"]=v; std::stringstream s; s<<a; vp_reach("encoded"); bool ok=true; 
  try { YAML::Node b=YAML::Load(s.str()); T w=b["value"].template as<T>(); eq(n,w,v); YAML::Node d; d=v; T x=d.template as<T>(); eq(n,x,v); } catch(const std::exception&){ ok=false; } vp_check("decodable",ok); }
// the same value with one field (at any depth) damaged is rejected
static int fields(const YAML::Node& n){ int k=0; if(n.IsMap()) for(auto it=n.begin();it!=n.end();++it) k+=1+fields(it->second); else if(n.IsSequence()) for(size_t i=0;i<n.size();i++) k+=fields(n[i]); return k; }
static bool damage(YAML::Node n,int& at,int how){ if(n.IsMap()){ std::vector<std::string> ks; for(auto it=n.begin();it!=n.end();++it) ks.push_back(it->first.as<std::string>()); for(auto& key:ks){ if(at--==0){ YAML::Node v=YAML::Clone(n[key]); if(how==2) { if(key=="joint_name") vp_assume(false); n[key]="garbage"; } else { n.remove(key); if(how==1) n["misspelt"]=v; } return true; } if(damage(n[key],at,how)) return true; } }
  else if(n.IsSequence()) for(size_t i=0;i<n.size();i++) if(damage(n[i],at,how)) return true; return false; }
template<class T> static void wrong(const YAML::Node& good,const T*){ int total=fields(good),at=vp_concrete(vp_int("field",0,63)),how=vp_concrete(vp_int("how",0,2)); vp_assume(at<total); YAML::Node n=YAML::Clone(good); bool optional=false; damage(n,at,how); bool ok=true; try { n.as<T>(); } catch(const YAML::Exception&){ ok=false; } catch(const std::exception&){ ok=false; } (void)optional; vp_reach("damaged"); vp_check("damaged-rejected",!ok); }
template<class T> static void wrong(const T& v){ YAML::Node a; a=v; wrong<T>(a,nullptr); }
void vp_main(){
#if TYPE==0
  { Eigen::Vector2d v(num("a"),num("b")); 
#ifdef WRONG
  wrong(v);
#else
  round("vector2",v);
#endif
  }
#elif TYPE==1
  { Eigen::Vector3d v(num("a"),num("b"),num("c"));
#ifdef WRONG
  wrong(v);
#else
  round("vector3",v);
#endif
  }
#elif TYPE==2
  double q[4]; vp_unit("q",4,q); double w=q[0],x=q[1],y=q[2],z=q[3]; Iso t=Iso::Identity();
  t(0,0)=1-2*(y*y+z*z); t(0,1)=2*(x*y-w*z); t(0,2)=2*(x*z+w*y); t(1,0)=2*(x*y+w*z); t(1,1)=1-2*(x*x+z*z); t(1,2)=2*(y*z-w*x); t(2,0)=2*(x*z-w*y); t(2,1)=2*(y*z+w*x); t(2,2)=1-2*(x*x+y*y); for(int i=0;i<3;i++) t(i,3)=num(S("t",i));
  round("transform",t);
#else
  #ifdef WRONG
  int r=1;
#else
  int r=vp_concrete(vp_int("rotation",0,7));
#endif
#if TYPE==3
  Iso v=conc("t",r);
#elif TYPE==4
  auto v=cam();
#elif TYPE==5
  auto v=corr<Correspondence2D3D>("c");
#elif TYPE==6
  auto v=corr<Correspondence3D3D>("c");
#elif TYPE==7
  auto v=obs<Observation2D3D,Correspondence2D3D>("o",vp_concrete(vp_int("count",1,2)),r);
#elif TYPE==8
  auto v=obs<Observation3D3D,Correspondence3D3D>("o",vp_concrete(vp_int("count",1,2)),r);
#elif TYPE==9
  ExtrinsicHandEyeProblem2D3D v; v.intr=cam(); v.camera_mount_to_camera_guess=conc("g",(r+3)%8); v.target_mount_to_target_guess=conc("h",(r+5)%8); int n=vp_concrete(vp_int("count",1,2)); for(int i=0;i<n;i++) v.observations.push_back(obs<Observation2D3D,Correspondence2D3D>(S("o",i)+"_",1+i,(r+2*i)%8));
#elif TYPE==10
  ExtrinsicHandEyeProblem3D3D v; v.camera_mount_to_camera_guess=conc("g",(r+3)%8); v.target_mount_to_target_guess=conc("h",(r+5)%8); int n=vp_concrete(vp_int("count",1,2)); for(int i=0;i<n;i++) v.observations.push_back(obs<Observation3D3D,Correspondence3D3D>(S("o",i)+"_",1+i,(r+2*i)%8));
#elif TYPE==11
  ExtrinsicHandEyeResult v; v.converged=vp_concrete(vp_int("converged",0,1)); v.initial_cost_per_obs=num("initial"); v.final_cost_per_obs=num("final"); v.camera_mount_to_camera=conc("g",(r+3)%8); v.target_mount_to_target=conc("h",(r+5)%8);
#else
  // DH chains are only read: the document is written here
  int n=vp_concrete(vp_int("joints",0,2)); Iso base=conc("b",r); double p[2][4]; bool rev[2]; YAML::Node doc; doc["base_transform"]=base; doc["dh_transforms"]=YAML::Node(YAML::NodeType::Sequence); static const char* K[4]={"d","theta","r","alpha"};
  for(int i=0;i<n;i++){ YAML::Node j; rev[i]=vp_concrete(vp_int(S("revolute",i).c_str(),0,1)); for(int k=0;k<4;k++){ p[i][k]=num(S(S("p",i)+"_",k)); j[K[k]]=p[i][k]; } j["type"]=(unsigned)(rev[i]?DHJointType::REVOLUTE:DHJointType::LINEAR); j["joint_name"]=S("joint ",i); doc["dh_transforms"].push_back(j); }
#ifdef WRONG
  wrong<DHChain>(doc,nullptr); return;
#else
  std::stringstream ss; ss<<doc; bool ok=true; try { DHChain c=YAML::Load(ss.str()).as<DHChain>(); vp_reach("encoded"); vp_check("joints",(int)c.dof()==n); if((int)c.dof()!=n) return; eq("base",c.getBaseOffset(),base); auto tb=c.getDHTable(); auto ty=c.getJointTypes(); auto lb=c.getParamLabels();
    for(int i=0;i<n;i++){ for(int k=0;k<4;k++) vp_check_eq(K[k],tb(i,k),p[i][k]); vp_check("joint-type",ty[i]==(rev[i]?DHJointType::REVOLUTE:DHJointType::LINEAR)); vp_check("joint-name",lb[i][0].find(S("joint ",i))==0); } } catch(const std::exception&){ ok=false; } vp_check("decodable",ok);
  if(n){ doc["dh_transforms"][0]["type"]=vp_concrete(vp_int("wrongtype",2,5)); bool rej=false; try { doc.as<DHChain>(); } catch(const std::exception&){ rej=true; } vp_check("unknown-joint-type-rejected",rej); }
  return;
#endif
#endif
#if TYPE!=12
#ifdef WRONG
  wrong(v);
#else
  round("value",v);
#endif
#endif
#endif
}
