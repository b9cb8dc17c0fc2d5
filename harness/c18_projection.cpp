// Line-plane intersection (MODE 0), back projection of pixels onto a plane (MODE 1), 3D reprojection error (MODE 2, 3).
#include "vp.h"
#include <rct_optimizations/validation/projection.h>
#include <cmath>
using namespace rct_optimizations;
typedef Eigen::Isometry3d Iso; typedef Eigen::Vector3d V3;
static std::string S(const std::string& a,int i){ return a+std::to_string(i); }
static V3 vec(const std::string& n){ V3 v; for(int i=0;i<3;i++) v(i)=vp_real(S(n,i).c_str()); return v; }
static double dot(const V3& a,const V3& b){ double s=a(0)*b(0); s=s+a(1)*b(1); return s+a(2)*b(2); }
static Iso pose(const std::string& n,const int (&r)[3][3]){ Iso t=Iso::Identity(); for(int i=0;i<3;i++){ for(int j=0;j<3;j++) t(i,j)=r[i][j]; t(i,3)=vp_real(S(n,i).c_str()); } return t; }
static const int RA[3][3]={{0,0,1},{1,0,0},{0,1,0}},RB[3][3]={{0,-1,0},{1,0,0},{0,0,1}},RC[3][3]={{0,1,0},{0,0,-1},{-1,0,0}},RD[3][3]={{1,0,0},{0,-1,0},{0,0,-1}};
static Iso general(const std::string& n){ double q[4]; vp_unit((n+"q").c_str(),4,q); double w=q[0],x=q[1],y=q[2],z=q[3]; Iso t=Iso::Identity();
  t(0,0)=1-2*(y*y+z*z); t(0,1)=2*(x*y-w*z); t(0,2)=2*(x*z+w*y); t(1,0)=2*(x*y+w*z); t(1,1)=1-2*(x*x+z*z); t(1,2)=2*(y*z-w*x); t(2,0)=2*(x*z-w*y); t(2,1)=2*(y*z+w*x); t(2,2)=1-2*(x*x+y*y); for(int i=0;i<3;i++) t(i,3)=vp_real((n+std::to_string(i)).c_str()); return t; }
static Iso inv(const Iso& a){ Iso r=Iso::Identity(); for(int i=0;i<3;i++){ double s=0; for(int j=0;j<3;j++){ r(i,j)=a(j,i); s=s-a(j,i)*a(j,3); } r(i,3)=s; } return r; }
static Iso mul(const Iso& a,const Iso& b){ Iso r=Iso::Identity(); for(int i=0;i<3;i++) for(int j=0;j<4;j++){ double s=j==3?a(i,3):0.0; for(int k=0;k<3;k++) s=s+a(i,k)*b(k,j); r(i,j)=s; } return r; }
struct Cam { double fx,fy,cx,cy; };
static Cam cam(){ Cam c; c.fx=vp_real("fx"); c.fy=vp_real("fy"); c.cx=vp_real("cx"); c.cy=vp_real("cy"); vp_assume(c.fx>0.01||c.fx<-0.01); vp_assume(c.fy>0.01||c.fy<-0.01); return c; }
// the point of the plane z=0 of frame T along the ray of a pixel; the ray's slopes relative to the plane are chosen
static V3 seen(const Cam& k,const Iso& T,const std::string& id,Eigen::Vector2d& px){
  V3 e(vp_real_in((id+"ex").c_str(),-1000,1000),vp_real_in((id+"ey").c_str(),-1000,1000),1.0),d,o,q; for(int i=0;i<3;i++){ d(i)=T(i,0)*e(0)+T(i,1)*e(1)+T(i,2); o(i)=-(T(0,i)*T(0,3)+T(1,i)*T(1,3)+T(2,i)*T(2,3)); }
  if(vp_concrete(vp_int((id+"side").c_str(),0,1))) vp_assume(d(2)>1e-3); else vp_assume(d(2)<-1e-3);
  px(0)=k.fx*(d(0)/d(2))+k.cx; px(1)=k.fy*(d(1)/d(2))+k.cy; for(int i=0;i<3;i++) q(i)=o(i)-o(2)*e(i); return q; }
void vp_main(){
#if MODE==0
  V3 n=vec("n"),p=vec("p"),l=vec("l"),o=vec("o"); bool dflt=false; if(vp_concrete(vp_int("default",0,1))) dflt=true;
  double e=1e-6; if(!dflt){ e=vp_real("eps"); vp_assume(e>1e-9); } double ln=dot(l,n); bool below=ln<e&&-ln<e,above=ln>e||-ln>e;
  bool ok=true; V3 x=V3::Zero(); try { x=dflt?computeLinePlaneIntersection(n,p,l,o):computeLinePlaneIntersection(n,p,l,o,e); } catch(const std::exception&){ ok=false; }
  if(ok){ vp_reach("intersection"); vp_check("parallel-rejected",!below); V3 d,r; for(int i=0;i<3;i++){ d(i)=x(i)-o(i); r(i)=x(i)-p(i); }
    vp_check_eq("on-plane",dot(n,r),0.0); for(int i=0;i<3;i++){ int j=(i+1)%3; vp_check_eq("on-line",d(i)*l(j),d(j)*l(i)); } }
  else { vp_reach("parallel"); vp_check("intersection-accepted",!above); }
#elif MODE==1
  Cam k=cam(); Iso T=general("T"); Eigen::MatrixX2d px(NPTS,2); V3 q[NPTS];
  for(int i=0;i<NPTS;i++){ Eigen::Vector2d p; q[i]=seen(k,T,S("p",i),p); px(i,0)=p(0); px(i,1)=p(1); }
  Eigen::Matrix3d K=Eigen::Matrix3d::Identity(); K(0,0)=k.fx; K(1,1)=k.fy; K(0,2)=k.cx; K(1,2)=k.cy; bool ok=true; Eigen::MatrixX3d r;
  try { r=project3D(px,T,K); } catch(const std::exception&){ ok=false; } vp_check("accepted",ok); if(!ok) return; vp_reach("projected");
  vp_check("rows",r.rows()==NPTS); if(r.rows()!=NPTS) return; for(int i=0;i<NPTS;i++) for(int j=0;j<3;j++) vp_check_eq("point-on-plane",r(i,j),q[i](j));
#else
  Cam k=cam(); CameraIntrinsics in; in.fx()=k.fx; in.fy()=k.fy; in.cx()=k.cx; in.cy()=k.cy;
  Iso cm=pose("cm",RA),tm=pose("tm",RB); const int NO=MODE==3?2:1; Observation2D3D::Set os; std::vector<V3> q,t; 
  for(int o=0;o<NO;o++){ Observation2D3D ob; ob.to_camera_mount=o?pose(S("c",o),RB):pose(S("c",o),RC); ob.to_target_mount=o?pose(S("t",o),RA):pose(S("t",o),RD);
    Iso T=mul(mul(inv(cm),inv(ob.to_camera_mount)),mul(ob.to_target_mount,tm));
    for(int i=0;i<NPTS+o;i++){ Correspondence2D3D c; std::string id=S(S("k",o)+"_",i); Eigen::Vector2d px; q.push_back(seen(k,T,id,px)); c.in_image=px; c.in_target=vec(id+"t"); t.push_back(c.in_target); ob.correspondence_set.push_back(c); }
    os.push_back(ob); }
  bool ok=true; Eigen::ArrayXd e; try { if(MODE==3) e=compute3DProjectionError(os,in,cm,tm); else e=compute3DProjectionError(os[0],in,cm,tm); } catch(const std::exception&){ ok=false; }
  vp_check("accepted",ok); if(!ok) return; vp_reach("measured"); vp_check("one-error-per-correspondence",(size_t)e.size()==q.size()); if((size_t)e.size()!=q.size()) return;
  for(size_t i=0;i<q.size();i++){ V3 d; for(int j=0;j<3;j++) d(j)=t[i](j)-q[i](j); vp_check("not-negative",e((int)i)>=0); vp_check_eq("squared-error",e((int)i)*e((int)i),dot(d,d)); }
#endif
}
