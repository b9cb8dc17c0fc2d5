// Calibration targets.  MODE 0 circle grid, 1 ArUco grid, 2 ChArUco grid; REJECT: incomplete or foreign detections.
// Boards come from OpenCV; their corner coordinates are then replaced by arbitrary numbers.
#include "vp.h"
#include <string>
#include <rct_image_tools/modified_circle_grid_target.h>
#include <rct_image_tools/aruco_grid_target.h>
#include <rct_image_tools/charuco_grid_target.h>
using namespace rct_image_tools; using rct_optimizations::Correspondence2D3D;
static std::string S(const std::string& a,int i){ return a+std::to_string(i); }
static Eigen::Vector2d px(const std::string& n){ return Eigen::Vector2d(vp_real((n+"u").c_str()),vp_real((n+"v").c_str())); }
static void pair_(const char* n,const Correspondence2D3D& c,const Eigen::Vector2d& i,const Eigen::Vector3d& t){ std::string a=std::string(n)+"-image",b=std::string(n)+"-target"; for(int k=0;k<2;k++) vp_check_eq(a.c_str(),c.in_image(k),i(k)); for(int k=0;k<3;k++) vp_check_eq(b.c_str(),c.in_target(k),t(k)); }
template<class T> static bool tried(const T& t,const TargetFeatures& f,Correspondence2D3D::Set& out){ try { const Target& b=t; out=b.createCorrespondences(f); return true; } catch(const std::exception&){ return false; } }
void vp_main(){
#if MODE==0
  int r=vp_concrete(vp_int("rows",1,GRID)),c=vp_concrete(vp_int("cols",1,GRID)); double s=vp_real("spacing"); ModifiedCircleGridTarget t(r,c,s); vp_check("rows",(int)t.rows==r); vp_check("cols",(int)t.cols==c); vp_check_eq("spacing",t.spacing,s);
  TargetFeatures f; std::vector<Eigen::Vector2d> im; for(int i=0;i<r*c;i++){ im.push_back(px(S("p",i))); f[i].push_back(im.back()); }
#ifdef REJECT
  int gone=vp_concrete(vp_int("gone",0,GRID*GRID)),how=vp_concrete(vp_int("how",0,1)); vp_assume(gone<r*c); if(how) f[gone].clear(); else { f.erase(gone); if(vp_concrete(vp_int("foreign",0,1))) f[r*c+1].push_back(im[0]); } Correspondence2D3D::Set o; vp_reach("damaged"); vp_check("incomplete-detection-rejected",!tried(t,f,o));
#else
  auto p=t.createPoints(); vp_check("one-point-per-circle",(int)p.size()==r*c); if((int)p.size()!=r*c) return; vp_reach("created");
  for(int i=0;i<r;i++) for(int j=0;j<c;j++){ auto& q=p[i*c+j]; vp_check_eq("layout-x",q(0),s*j); vp_check_eq("layout-y",q(1),s*(r-1-i)); vp_check_eq("layout-z",q(2),0); }
  Correspondence2D3D::Set o; bool ok=tried(t,f,o); vp_check("complete-detection-accepted",ok); if(!ok) return; vp_check("one-correspondence-per-feature",(int)o.size()==r*c); if((int)o.size()!=r*c) return;
  for(int i=0;i<r;i++) for(int j=0;j<c;j++) pair_("circle",o[i*c+j],im[i*c+j],Eigen::Vector3d(s*j,s*(r-1-i),0));
  double d=vp_real("change"); int what=vp_concrete(vp_int("what",0,3)); ModifiedCircleGridTarget u(r+(what==1),c+(what==2),what==3?s+d:s); if(what==3) vp_assume(d>1e-6||d<-1e-6); vp_check("equality",(t==u)==(what==0)); vp_check("equality",(u==t)==(what==0));
#endif
#elif MODE==1
  int r=vp_concrete(vp_int("rows",1,2)),c=vp_concrete(vp_int("cols",1,2)); 
#ifdef LAYOUT
  // the geometry of the board follows rows, columns, marker size and gap (distinct dyadic sizes)
  r=vp_concrete(vp_int("more-rows",1,3)); c=vp_concrete(vp_int("more-cols",1,3)); float L=vp_concrete(vp_int("size",1,2))*0.5f,G=vp_concrete(vp_int("gap",1,3))*0.0625f; ArucoGridTarget t(r,c,L,G); vp_reach("created"); vp_check("one-tag-per-cell",(int)t.points.size()==r*c);
  for(int i=0;i<r;i++) for(int j=0;j<c;j++){ auto it=t.points.find(i*c+j); vp_check("tag-present",it!=t.points.end()); if(it==t.points.end()) return; auto& q=it->second; vp_check("four-corners",q.size()==4); if(q.size()!=4) return;
    auto& o=t.points.at(0); vp_check_eq("tag-column",q[0](0)-o[0](0),j*(L+G)); double dy=q[0](1)-o[0](1); vp_check_eq("tag-row",dy*dy,i*(L+G)*i*(L+G)); vp_check_eq("tag-plane",q[0](2),0);
    vp_check_eq("corner-clockwise",q[1](0)-q[0](0),L); vp_check_eq("corner-clockwise",q[1](1)-q[0](1),0); vp_check_eq("corner-clockwise",q[2](0)-q[1](0),0); vp_check_eq("corner-clockwise",q[3](0)-q[2](0),-L); vp_check_eq("corner-clockwise",(q[3](1)-q[0](1))*(q[3](1)-q[0](1)),L*L); vp_check_eq("corner-clockwise",q[3](1),q[2](1)); }
  for(int k=0;k<5;k++){ ArucoGridTarget u(r+(k==1),c+(k==2),k==3?2*L:L,k==4?2*G:G); vp_check("equality",(t==u)==(k==0)); vp_check("equality",(u==t)==(k==0)); }
#else
  auto b=cv::aruco::GridBoard::create(c,r,0.5f,0.125f,cv::aruco::getPredefinedDictionary(cv::aruco::DICT_6X6_250)); int n=r*c; static const int ID[4]={7,2,40,0}; std::vector<std::vector<Eigen::Vector3d>> co(n);
  for(int i=0;i<n;i++){ b->ids[i]=ID[i]; for(int k=0;k<4;k++){ std::string q=S(S("t",i)+"c",k); double x=vp_real((q+"x").c_str()),y=vp_real((q+"y").c_str()),z=vp_real((q+"z").c_str()); co[i].push_back(Eigen::Vector3d((float)x,(float)y,(float)z)); b->objPoints[i][k].x=x; b->objPoints[i][k].y=y; b->objPoints[i][k].z=z; } }
  ArucoGridTarget t(b); vp_check("same-board",t.board==b); vp_check("one-tag-per-cell",(int)t.points.size()==n); vp_reach("created");
  int seen=vp_concrete(vp_int("seen",0,15)); vp_assume(seen<(1<<n)); TargetFeatures f; std::map<int,std::vector<Eigen::Vector2d>> im; int m=0; for(int i=0;i<n;i++) if(seen>>i&1){ m++; for(int k=0;k<4;k++){ im[i].push_back(px(S(S("o",i)+"c",k))); f[ID[i]].push_back(im[i][k]); } }
  Correspondence2D3D::Set o;
#ifdef REJECT
  int how=vp_concrete(vp_int("how",0,1)); if(how) { vp_assume(m>0); f.begin()->second.push_back(px("extra")); } else for(int k=0;k<4;k++) f[3].push_back(px(S("extra",k))); vp_reach("damaged"); vp_check("foreign-tag-rejected",!tried(t,f,o));
#else
  bool ok=tried(t,f,o); vp_check("detection-accepted",ok); if(!ok) return; vp_check("one-correspondence-per-corner",(int)o.size()==4*m); if((int)o.size()!=4*m) return; int at=0; for(auto& kv:f) for(int k=0;k<4;k++){ int i=0; while(ID[i]!=(int)kv.first) i++; pair_("tag",o[at++],im[i][k],co[i][k]); }
  ArucoGridTarget u(b); vp_check("equality",t==u); int wi=vp_concrete(vp_int("wi",0,n-1)),wk=vp_concrete(vp_int("wk",0,3)),wx=vp_concrete(vp_int("wx",0,2)); double d=vp_real("change"); vp_assume(d>1e-3||d<-1e-3); u.points[ID[wi]][wk](wx)=u.points[ID[wi]][wk](wx)+d; vp_check("different-corner-not-equal",!(t==u)); vp_check("different-corner-not-equal",!(u==t));
#endif
#endif
#else
  int r=vp_concrete(vp_int("rows",2,3)),c=vp_concrete(vp_int("cols",2,3)),n=(r-1)*(c-1);
#ifdef LAYOUT
  float L=vp_concrete(vp_int("size",2,3))*0.5f,M=vp_concrete(vp_int("marker",1,2))*0.25f; CharucoGridTarget t(r,c,L,M); vp_reach("created"); vp_check("one-corner-per-inner-intersection",(int)t.points.size()==n);
  for(int i=0;i<r-1;i++) for(int j=0;j<c-1;j++){ auto it=t.points.find(i*(c-1)+j); vp_check("corner-present",it!=t.points.end()); if(it==t.points.end()) return; auto& o=t.points.at(0); auto& q=it->second; vp_check_eq("corner-column",q(0)-o(0),j*L); double dy=q(1)-o(1); vp_check_eq("corner-row",dy*dy,i*L*i*L); vp_check_eq("corner-plane",q(2),0); }
  for(int k=0;k<5;k++){ CharucoGridTarget u(r+(k==1),c+(k==2),k==3?2*L:L,k==4?0.75f*M:M); vp_check("equality",(t==u)==(k==0)); vp_check("equality",(u==t)==(k==0)); }
#else
  auto b=cv::aruco::CharucoBoard::create(c,r,0.5f,0.25f,cv::aruco::getPredefinedDictionary(cv::aruco::DICT_6X6_250)); std::vector<Eigen::Vector3d> co; 
  for(int i=0;i<n;i++){ std::string q=S("c",i); double x=vp_real((q+"x").c_str()),y=vp_real((q+"y").c_str()),z=vp_real((q+"z").c_str()); co.push_back(Eigen::Vector3d((float)x,(float)y,(float)z)); b->chessboardCorners[i].x=x; b->chessboardCorners[i].y=y; b->chessboardCorners[i].z=z; }
  CharucoGridTarget t(b); vp_check("same-board",t.board==b); vp_check("one-corner-per-inner-intersection",(int)t.points.size()==n); vp_reach("created");
  int seen=vp_concrete(vp_int("seen",0,15)); vp_assume(seen<(1<<n)); TargetFeatures f; std::map<int,Eigen::Vector2d> im; for(int i=0;i<n;i++) if(seen>>i&1){ im[i]=px(S("o",i)); f[i].push_back(im[i]); }
  Correspondence2D3D::Set o;
#ifdef REJECT
  int how=vp_concrete(vp_int("how",0,1)); if(how) f[0].clear(); else f[n].push_back(px("extra")); vp_reach("damaged"); vp_check("foreign-corner-rejected",!tried(t,f,o));
#else
  bool ok=tried(t,f,o); vp_check("detection-accepted",ok); if(!ok) return; vp_check("one-correspondence-per-corner",o.size()==im.size()); if(o.size()!=im.size()) return; int at=0; for(auto& kv:im) pair_("corner",o[at++],kv.second,co[kv.first]);
  CharucoGridTarget u(b); vp_check("equality",t==u); int wi=vp_concrete(vp_int("wi",0,n-1)),wx=vp_concrete(vp_int("wx",0,2)); double d=vp_real("change"); vp_assume(d>1e-3||d<-1e-3); u.points[wi](wx)=u.points[wi](wx)+d; vp_check("different-corner-not-equal",!(t==u)); vp_check("different-corner-not-equal",!(u==t));
#endif
#endif
#endif
}
