// Equality: a value equals its copy; a value in which one quantity differs by more than the tolerance does not, either way.
#include "vp.h"
#include <rct_optimizations/types.h>
#include <rct_optimizations/extrinsic_hand_eye.h>
#include <functional>
using namespace rct_optimizations;
typedef Eigen::Isometry3d Iso;
static std::string S(const std::string& a,int i){ return a+std::to_string(i); }
static std::vector<double*> F;            // numeric fields of the value under construction
static std::vector<std::vector<int>> G;   // groups of fields compared together (vectors, transforms)
static double val(){ static int n=0; n++; return (n%7-3)*0.5+n*0.0625; }   // every other number: concrete, pairwise different
static Iso any(const std::string& n){ Iso t=Iso::Identity(); for(int i=0;i<3;i++) for(int j=0;j<4;j++) t(i,j)=val(); return t; }
template<int N> static Eigen::Matrix<double,N,1> anyv(const std::string& n){ Eigen::Matrix<double,N,1> v; for(int i=0;i<N;i++) v(i)=val(); return v; }
static Eigen::VectorXd anyx(const std::string& n,int k){ Eigen::VectorXd v(k); for(int i=0;i<k;i++) v(i)=val(); return v; }
static void add(Iso& t){ for(int i=0;i<3;i++) for(int j=0;j<4;j++) F.push_back(&t(i,j)); }
template<class M> static void addm(M& m){ for(int i=0;i<m.size();i++) F.push_back(&m(i)); }
template<class C> static void addc(std::vector<C>& s){ for(auto&c:s){ addm(c.in_image); addm(c.in_target); } }
template<class C> static C corr(const std::string& n){ C c; for(int i=0;i<c.in_image.size();i++) c.in_image(i)=val(); c.in_target=anyv<3>(n+"t"); return c; }
template<class T> static bool eq(const T& a,const T& b){ return a==b; }
template<class T> static void run(const char* name,T a,std::function<void(T&)> fields,std::vector<T> grown={}){
  F.clear(); fields(a); int n=(int)F.size(); int k=vp_concrete(vp_int((std::string(name)+"_field").c_str(),0,n-1));
  for(size_t i=0;i<grown.size();i++) vp_check((std::string(name)+"-sees-size-"+std::to_string(i)).c_str(),!eq(a,grown[i])&&!eq(grown[i],a));
  *F[k]=vp_real((std::string(name)+"_value").c_str());
  T b=a; vp_check((std::string(name)+"-equals-copy").c_str(),eq(a,b)&&eq(b,a)&&eq(a,a));
  double s=0; for(double* x:F) s+=*x**x;
  F.clear(); fields(b); double d=vp_real((std::string(name)+"_delta").c_str()); vp_assume(d*d>1e-6*(1+s)); *F[k]+=d; vp_reach(name);
  vp_check((std::string(name)+"-sees-field-"+std::to_string(k)).c_str(),!eq(a,b)&&!eq(b,a)); }
template<class O,class C> static O obs(const std::string& n,int k){ O o; o.to_camera_mount=any(n+"c"); o.to_target_mount=any(n+"t"); for(int i=0;i<k;i++) o.correspondence_set.push_back(corr<C>(S(n+"k",i))); return o; }
template<class O> static void obsf(O& o){ add(o.to_camera_mount); add(o.to_target_mount); addc(o.correspondence_set); }
template<class K,class C> static void kin(const char* n){ K a; a.camera_chain_joints=anyx("cj",2); a.target_chain_joints=anyx("tj",1); a.correspondence_set.push_back(corr<C>("k0"));
  K g=a,h=a,l=a,m=a; g.correspondence_set.push_back(corr<C>("k1")); h.correspondence_set.clear(); l.camera_chain_joints=anyx("cj",1); m.target_chain_joints=anyx("tj",2);
  run<K>(n,a,[](K& v){ addm(v.camera_chain_joints); addm(v.target_chain_joints); addc(v.correspondence_set); },{g,h
#ifdef SIZES
   ,l,m
#endif
  }); }
template<class P,class O,class C> static P prob(){ P p; p.observations.push_back(obs<O,C>("o0",1)); p.target_mount_to_target_guess=any("tg"); p.camera_mount_to_camera_guess=any("cg"); return p; }
void vp_main(){
#if TYPE==0
  CameraIntrinsics k; for(int i=0;i<4;i++) k.values[i]=val(); run<CameraIntrinsics>("intrinsics",k,[](CameraIntrinsics& v){ for(auto&x:v.values) F.push_back(&x); });
#elif TYPE==1
  typedef Correspondence2D3D C; run<C>("correspondence-2d",corr<C>("a"),[](C& v){ addm(v.in_image); addm(v.in_target); });
#elif TYPE==2
  typedef Correspondence3D3D C; run<C>("correspondence-3d",corr<C>("a"),[](C& v){ addm(v.in_image); addm(v.in_target); });
#elif TYPE==3
  typedef Observation2D3D O; typedef Correspondence2D3D C; O a=obs<O,C>("o",2),g=a,h=a; g.correspondence_set.push_back(corr<C>("x")); h.correspondence_set.pop_back(); run<O>("observation-2d",a,obsf<O>,{g,h});
#elif TYPE==4
  typedef Observation3D3D O; typedef Correspondence3D3D C; O a=obs<O,C>("o",2),g=a,h=a; g.correspondence_set.push_back(corr<C>("x")); h.correspondence_set.pop_back(); run<O>("observation-3d",a,obsf<O>,{g,h});
#elif TYPE==5
  kin<KinObservation2D3D,Correspondence2D3D>("kinematic-2d");
#elif TYPE==6
  kin<KinObservation3D3D,Correspondence3D3D>("kinematic-3d");
#elif TYPE==7
  typedef KinematicMeasurement K; K a; a.camera_to_target=any("m"); a.camera_chain_joints=anyx("cj",2); a.target_chain_joints=anyx("tj",1); K l=a,m=a; l.camera_chain_joints=anyx("cj",1); m.target_chain_joints=anyx("tj",2);
  run<K>("measurement",a,[](K& v){ add(v.camera_to_target); addm(v.camera_chain_joints); addm(v.target_chain_joints); },{
#ifdef SIZES
  l,m
#endif
  });
#elif TYPE==8
  typedef ExtrinsicHandEyeProblem2D3D P; P a=prob<P,Observation2D3D,Correspondence2D3D>(); for(int i=0;i<4;i++) a.intr.values[i]=val(); P g=a,h=a; g.observations.push_back(obs<Observation2D3D,Correspondence2D3D>("x",1)); h.observations.clear();
  run<P>("hand-eye-2d",a,[](P& v){ for(auto&x:v.intr.values) F.push_back(&x); add(v.target_mount_to_target_guess); add(v.camera_mount_to_camera_guess); for(auto&o:v.observations) obsf(o); },{g,h});
#else
  typedef ExtrinsicHandEyeProblem3D3D P; P a=prob<P,Observation3D3D,Correspondence3D3D>(); P g=a,h=a; g.observations.push_back(obs<Observation3D3D,Correspondence3D3D>("x",1)); h.observations.clear();
  run<P>("hand-eye-3d",a,[](P& v){ add(v.target_mount_to_target_guess); add(v.camera_mount_to_camera_guess); for(auto&o:v.observations) obsf(o); },{g,h});
#endif
}
