// ROS tools.  MODE 0: correspondence data set, 1: parameters from the parameter server, 2: parameters from files,
// 3: parameter trees to YAML, 4: target finder plugins, 5: data sets on disk.
#include "vp.h"
#include <cmath>
#include <malloc.h>
#include <fstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/stat.h>
#include <Eigen/Geometry>
static std::string S(const std::string& a,int i){ return a+std::to_string(i); }
#if MODE==0
#include <rct_ros_tools/data_set.h>
#include <opencv2/highgui.hpp>
using namespace rct_ros_tools; using rct_optimizations::Correspondence2D3D;
static std::map<int,int> outcome;   // of every image: 0 found, 1 search throws, 2 nothing found, 3 features do not match the target
static int images_seen[64];
struct T_ : rct_image_tools::Target { Correspondence2D3D::Set createCorrespondences(const rct_image_tools::TargetFeatures& f) const override { Correspondence2D3D::Set s; for(auto& kv:f) for(auto& p:kv.second){ Correspondence2D3D c; c.in_image=p; c.in_target=Eigen::Vector3d(kv.first,0,0); s.push_back(c); } if(f.count(99)) throw std::runtime_error("unknown feature"); return s; } };
struct F_ : rct_image_tools::TargetFinder { T_ t; std::map<int,rct_image_tools::TargetFeatures> f; const rct_image_tools::Target& target() const override { return t; } cv::Mat drawTargetFeatures(const cv::Mat& m,const rct_image_tools::TargetFeatures&) const override { return m; }
  rct_image_tools::TargetFeatures findTargetFeatures(const cv::Mat& m) const override { int id=m.data[0]; images_seen[id]++; if(outcome.at(id)==1) throw std::runtime_error("nothing here"); if(outcome.at(id)==2) return {}; auto r=f.at(id); if(outcome.at(id)==3) r[99].push_back(Eigen::Vector2d(0,0)); return r; } };
void vp_main(){ mallopt(M_PERTURB,0x5a); const int C=CAMS; F_ f; std::vector<ExtrinsicDataSet> ds(C); int n[C],most=0; int kind=vp_concrete(vp_int("kind",1,3));
  std::vector<std::vector<int>> miss(C); std::vector<std::vector<Eigen::Vector2d>> px(C); std::vector<unsigned char> bytes(64);
  for(int c=0;c<C;c++){ n[c]=vp_concrete(vp_int(S("images",c).c_str(),0,IMGS)); most=std::max(most,n[c]); for(int i=0;i<n[c];i++){ int id=c*IMGS+i+1; bytes[id]=id; ds[c].images.push_back(cv::Mat(1,1,CV_8U,&bytes[id])); ds[c].tool_poses.push_back(Eigen::Isometry3d::Identity()); int m=vp_concrete(vp_int(S(S("missing",c)+"_",i).c_str(),0,1)); miss[c].push_back(m); outcome[id]=m?kind:0; Eigen::Vector2d p(vp_real(S(S("u",c)+"_",i).c_str()),vp_real(S(S("v",c)+"_",i).c_str())); px[c].push_back(p); f.f[id][c].push_back(p); if(i%2) f.f[id][C+i].push_back(Eigen::Vector2d(p(1),p(0))); } }
  ExtrinsicCorrespondenceDataSet s(ds,f); vp_reach("built"); vp_check("cameras",(int)s.getCameraCount()==C); vp_check("images",(int)s.getImageCount()==most); if((int)s.getCameraCount()!=C||(int)s.getImageCount()!=most) return;
  for(int i=0;i<most;i++){ int k=0; for(int c=0;c<C;c++){ bool has=i<n[c]&&!miss[c][i]; k+=has; vp_check(has?"found-image-reported":"missing-image-reported",s.foundCorrespondence(c,i)==has); auto& set=s.getCorrespondenceSet(c,i);
      if(!has) vp_check("no-correspondences-of-a-missing-image",set.empty()); else { size_t w=i%2?2:1; vp_check("correspondences-kept",set.size()==w); if(set.size()!=w) return; vp_check_eq("feature-u",set[0].in_image(0),px[c][i](0)); vp_check_eq("feature-v",set[0].in_image(1),px[c][i](1)); vp_check_eq("feature-target",set[0].in_target(0),c); if(w==2){ vp_check_eq("feature-u",set[1].in_image(0),px[c][i](1)); vp_check_eq("feature-target",set[1].in_target(0),C+i); } } }
    vp_check("cameras-which-found-the-image",(int)s.getImageCameraCount(i)==k); }
  for(int c=0;c<C;c++){ int k=0; for(int i=0;i<n[c];i++){ k+=!miss[c][i]; vp_check("every-image-searched-once",images_seen[c*IMGS+i+1]==1); } vp_check("images-found-by-the-camera",(int)s.getCameraImageCount(c)==k); } 
  if(most==0) return; std::vector<ExtrinsicDataSet> none; ExtrinsicCorrespondenceDataSet e(none,f); vp_check("no-cameras",e.getCameraCount()==0&&e.getImageCount()==0); }
#elif MODE==1
#include <rct_ros_tools/parameter_loaders.h>
using namespace rct_ros_tools; using X=XmlRpc::XmlRpcValue;
static const char* IK[4]={"fx","fy","cx","cy"}; static const char* PK[7]={"x","y","z","qx","qy","qz","qw"};
void vp_main(){ ros::NodeHandle nh;
#if POSE
  const char** K=PK; const int N=7; double v[7]; for(int i=0;i<3;i++) v[i]=vp_real(PK[i]);
#if POSE==2
  static const double QS[8][4]={{0,0,0,1},{0.9,0.1,-0.2,0.3},{0.2,0.7,-0.5,-0.4},{-0.1,0.3,0.9,-0.2},{1,0,0,0},{0,1,0,0},{0,0,1,0},{1e-9,0,0,-1}}; int r=vp_concrete(vp_int("rotation",0,7)); for(int i=0;i<4;i++) v[3+i]=QS[r][i];
#else
  vp_unit("q",4,v+3);
#endif
#else
  const char** K=IK; const int N=4; double v[4]; for(int i=0;i<4;i++) v[i]=vp_real(IK[i]);
#endif
  X s; for(int i=0;i<N;i++) s[K[i]]=X(v[i]); s["name"]=X("other"); bool good=true;
#ifdef WRONG
  int at=vp_concrete(vp_int("field",0,N)),how=vp_concrete(vp_int("how",0,4)); good=false;
  if(at==N){ if(how==1) nh.vp_params["other"]=s; else if(how==2) nh.vp_params["camera"]=X(v[0]); else if(how==3) nh.vp_params["camera"]=X("text"); else if(how==4){ X a; a.setSize(N); for(int i=0;i<N;i++) a[i]=X(v[i]); nh.vp_params["camera"]=a; } }
  else { X t; for(int i=0;i<N;i++) if(i!=at) t[K[i]]=X(v[i]); if(how==1) t["misspelt"]=X(v[at]); if(how==2) t[K[at]]=X("garbage"); if(how==3) t[K[at]]=X(true); if(how==4){ X a; a.setSize(1); a[0]=X(v[at]); t[K[at]]=a; } nh.vp_params["camera"]=t; }
#else
  nh.vp_params["camera"]=s; nh.vp_params["other"]=X(1);
#endif
  bool thrown=false,ok;
#if POSE
  Eigen::Isometry3d a=Eigen::Isometry3d::Identity(),b=a; a.translation()<<7,8,9; b=a; Eigen::Isometry3d keep=b;
  try { a=loadPose(nh,"camera"); } catch(const ros::InvalidParameterException&){ thrown=true; } ok=loadPose(nh,"camera",b);
#else
  rct_optimizations::CameraIntrinsics a,b; for(int i=0;i<4;i++) a.values[i]=b.values[i]=i+1; try { a=loadIntrinsics(nh,"camera"); } catch(const ros::InvalidParameterException&){ thrown=true; } ok=loadIntrinsics(nh,"camera",b);
#endif
  vp_check("accepted",thrown==!good); vp_check("accepted",ok==good); vp_reach("loaded");
#if POSE
  if(!good){ for(int i=0;i<3;i++) vp_check_eq("kept-on-failure",b(i,3),keep(i,3)); return; } if(thrown||!ok) return; double x=v[3],y=v[4],z=v[5],w=v[6]; double n=x*x+y*y+z*z+w*w; Eigen::Matrix3d R; R<<1-2*(y*y+z*z)/n,2*(x*y-w*z)/n,2*(x*z+w*y)/n,2*(x*y+w*z)/n,1-2*(x*x+z*z)/n,2*(y*z-w*x)/n,2*(x*z-w*y)/n,2*(y*z+w*x)/n,1-2*(x*x+y*y)/n;
  for(const Eigen::Isometry3d& p:{a,b}) for(int i=0;i<3;i++){ vp_check_eq("translation",p(i,3),v[i]); for(int j=0;j<3;j++){
#if POSE==2
    vp_check_le("rotation",p(i,j)-R(i,j),1e-8); vp_check_le("rotation",R(i,j)-p(i,j),1e-8);
#else
    vp_check_eq("rotation",p(i,j),R(i,j));
#endif
  } }
#else
  if(!good){ for(int i=0;i<4;i++) vp_check_eq("kept-on-failure",b.values[i],i+1); return; } if(thrown||!ok) return; for(auto& c:{a,b}){ vp_check_eq("fx",c.fx(),v[0]); vp_check_eq("fy",c.fy(),v[1]); vp_check_eq("cx",c.cx(),v[2]); vp_check_eq("cy",c.cy(),v[3]); }
#endif
}
#elif MODE==3
#include <rct_ros_tools/loader_utils.h>
using namespace rct_ros_tools; using X=XmlRpc::XmlRpcValue;
// a parameter of every kind, alone and in arrays, at two depths
static X leaf(int k,const std::string& n,double& d,int& i){
#ifdef WRONG
  if(k<2){ i=1; return k?X(1):X(true); }
#endif
  switch(k){ case 0: i=vp_concrete(vp_int((n+"b").c_str(),0,1)); return X(i!=0); case 1: i=vp_concrete(vp_int((n+"i").c_str(),-1,1)); return X(i); case 2: d=vp_real((n+"d").c_str()); return X(d); default: return X("text of "+n); } }
static void same(const char* what,int k,const std::string& n,const YAML::Node& y,double d,int i){ bool ok=y.IsDefined()&&y.IsScalar(); vp_check(what,ok); if(!ok) return; switch(k){ case 0: vp_check(what,y.as<bool>()==(i!=0)); break; case 1: vp_check(what,y.as<int>()==i); break; case 2: vp_check_eq(what,y.as<double>(),d); break; default: vp_check(what,y.as<std::string>()=="text of "+n); } }
void vp_main(){ X top; double d[4]; int i[4]; int k=vp_concrete(vp_int("scalar",0,3)),a=vp_concrete(vp_int("array",0,3)),len=vp_concrete(vp_int("length",1,3)); bool deep=vp_concrete(vp_int("deep",0,1)); X s,arr; arr.setSize(len); for(int j=0;j<len;j++) arr[j]=leaf(a,S("e",j),d[j],i[j]); s["one"]=leaf(k,"v",d[3],i[3]); s["list"]=arr; 
#ifdef WRONG
  int how=vp_concrete(vp_int("how",0,4)); if(how==0){ vp_assume(len>1); double e; int f; int at=vp_concrete(vp_int("at",0,2)); vp_assume(at<len); arr[at]=leaf((a+1)%4,"x",e,f); s["list"]=arr; } else if(how==1) s["one"]=X(); else if(how==2){ X m; m["k"]=X(1); arr=X(); arr.setSize(1); arr[0]=m; s["list"]=arr; } else if(how==3){ X m; m.setSize(1); m[0]=X(1); arr=X(); arr.setSize(1); arr[0]=m; s["list"]=arr; }
#endif
  if(deep) top["inner"]=s; else top=s;
#ifdef WRONG
  if(how==4) top=arr; bool rej=false; try { toYAML(top); } catch(const std::exception&){ rej=true; } catch(const XmlRpc::XmlRpcException&){ rej=true; } vp_reach("damaged"); vp_check("rejected",rej);
#else
  bool ok=true; try { YAML::Node y=toYAML(top); vp_reach("converted"); vp_check("members",y.IsMap()&&y.size()==(deep?1u:2u)); YAML::Node n=deep?y["inner"]:y; vp_check("members",n.IsMap()&&n.size()==2); if(!n.IsMap()) return; same("scalar",k,"v",n["one"],d[3],i[3]); auto l=n["list"]; vp_check("list",l.IsSequence()&&(int)l.size()==len); if(l.IsSequence()) for(int j=0;j<len;j++) same("list-element",a,S("e",j),l[j],d[j],i[j]); } catch(...){ ok=false; } vp_check("accepted",ok);
#endif
}
#elif MODE==4
#include <pluginlib/class_list_macros.h>
#include <yaml-cpp/yaml.h>
#include <rct_ros_tools/target_finder_plugin.h>
#include <rct_image_tools/modified_circle_grid_finder.h>
#include <rct_image_tools/charuco_finder.h>
#include <cstring>
extern "C" const vp_plugin __start_vp_plugins[], __stop_vp_plugins[];
using namespace rct_ros_tools; using namespace rct_image_tools;
static TargetFinderPlugin* make(const char* name){ for(const vp_plugin* p=__start_vp_plugins;p<__stop_vp_plugins;p++) if(!strcmp(p->name,name)) return (TargetFinderPlugin*)p->make(); return nullptr; }
struct Open : TargetFinderPlugin { static const TargetFinder* get(TargetFinderPlugin* p){ return (p->*(&Open::finder_)).get(); } };
#define FIELDS(F) F(float,minThreshold) F(float,maxThreshold) F(int,nThresholds) F(int,minRepeatability) F(float,circleInclusionRadius) F(float,maxRadiusDiff) F(float,maxAverageEllipseError) F(bool,filterByColor) F(int,circleColor) F(bool,filterByArea) F(float,minArea) F(float,maxArea) F(bool,filterByCircularity) F(float,minCircularity) F(float,maxCircularity) F(bool,filterByInertia) F(float,minInertiaRatio) F(float,maxInertiaRatio) F(bool,filterByConvexity) F(float,minConvexity) F(float,maxConvexity)
static double any_(const char* n,float){ return vp_real_in(n,-1e6,1e6); }
static int any_(const char* n,int){ return n[0]=='c'?255:n[1]=='T'?7:2; }
static bool any_(const char* n,bool);
static int flip_;
static bool any_(const char* n,bool){ return (flip_++%2)==0; }
static const char* NAMES[]={
#define F(t,n) #n,
FIELDS(F)
#undef F
};
void vp_main(){ 
#if CHARUCO
  TargetFinderPlugin* p=make("rct_ros_tools::CharucoGridTargetFinderPlugin"); vp_check("registered",p); if(!p) return; int r=3,c=4,dict=9; float L=1.5f,M=0.5f;
#ifndef WRONG
  r=vp_concrete(vp_int("rows",2,4)); c=vp_concrete(vp_int("cols",2,4)); dict=vp_concrete(vp_int("dictionary",8,11)); L=vp_concrete(vp_int("size",2,3))*0.5f; M=vp_concrete(vp_int("marker",1,2))*0.25f;
#endif

  YAML::Node n; n["type"]="x"; n["rows"]=r; n["cols"]=c; n["chessboard_dim"]=L; n["aruco_marker_dim"]=M; n["dictionary"]=dict; static const char* K[]={"rows","cols","chessboard_dim","aruco_marker_dim","dictionary"}; const int N=5;
#else
  TargetFinderPlugin* p=make("rct_ros_tools::ModifiedCircleGridTargetFinderPlugin"); vp_check("registered",p); if(!p) return; int r=vp_concrete(vp_int("rows",1,3)),c=vp_concrete(vp_int("cols",1,3)); double s=vp_real("spacing"); YAML::Node n; n["rows"]=r; n["cols"]=c; n["spacing"]=s; static const char* K[]={"rows","cols","spacing"}; const int N=3;
#endif
#ifdef WRONG
  int at=vp_concrete(vp_int("field",0,N-1)),how=vp_concrete(vp_int("how",0,3)); if(how==3) n[K[at]]="garbage"; else { n.remove(K[at]); if(how==1) n["misspelt"]=1; if(how==2){ YAML::Node q; q.push_back(1); n[K[at]]=q; } } bool rej=false; try { p->init(n); } catch(const std::exception&){ rej=true; } vp_reach("damaged"); vp_check("damaged-rejected",rej);
#elif CHARUCO
  bool ok=true; try { p->init(n); } catch(const std::exception&){ ok=false; } vp_check("accepted",ok); if(!ok) return; vp_reach("configured"); auto* t=dynamic_cast<const CharucoGridTarget*>(&p->target()); vp_check("target",t); if(!t) return; CharucoGridTarget want(r,c,L,M,dict); vp_check("target",*t==want); vp_check("target-rows",t->board->getChessboardSize()==cv::Size(c,r)); vp_check("target-size",t->board->getSquareLength()==L&&t->board->getMarkerLength()==M); 
  auto* f=dynamic_cast<const CharucoGridBoardTargetFinder*>(Open::get(p)); vp_check("finder",f);
  auto d=cv::aruco::getPredefinedDictionary(dict); vp_check("dictionary",t->board->dictionary&&t->board->dictionary->bytesList.rows==d->bytesList.rows&&cv::countNonZero(cv::Mat(t->board->dictionary->bytesList.reshape(1)!=d->bytesList.reshape(1)))==0);
#else
  CircleDetectorParams def,w; int given=vp_concrete(vp_int("given",0,3)),at=0; if(given) vp_assume(r==2&&c==3); flip_=vp_concrete(vp_int("flags",0,1)); // 0 none given, 1 all given, 2 one missing, 3 one malformed
  if(given){ YAML::Node q; 
#define F(t,f) { auto v=any_(#f,t()); w.f=v; q[#f]=v; }
    FIELDS(F)
#undef F
    if(given>1){ at=vp_concrete(vp_int("which",0,20)); if(given==2) q.remove(NAMES[at]); else q[NAMES[at]]="garbage"; w=def; } n["circle_detector_params"]=q; } else w=def;
  bool ok=true; try { p->init(n); } catch(const std::exception&){ ok=false; } vp_check("accepted",ok); if(!ok) return; vp_reach("configured"); auto* t=dynamic_cast<const ModifiedCircleGridTarget*>(&p->target()); vp_check("target",t); if(!t) return; vp_check("target-rows",(int)t->rows==r); vp_check("target-cols",(int)t->cols==c); vp_check_eq("target-spacing",t->spacing,s);
  auto* f=dynamic_cast<const ModifiedCircleGridTargetFinder*>(Open::get(p)); vp_check("finder",f); if(!f) return; auto& g=f->getCircleDetectorParams();
#define F(t,m) if(given>1) vp_check("all-or-default",g.m==def.m); else if(sizeof(g.m)==4) vp_check_eq(#m,(double)g.m,(double)w.m); else vp_check(#m,g.m==w.m);
  FIELDS(F)
#undef F
#endif
}
#elif MODE==2 || MODE==5
#include <rct_ros_tools/data_set.h>
#include <rct_ros_tools/parameter_loaders.h>
#include <rct_ros_tools/exceptions.h>
#include <rct_optimizations/serialization/eigen.h>
#include <rct_optimizations/serialization/types.h>
#include <opencv2/imgcodecs.hpp>
#include <ftw.h>
using namespace rct_ros_tools; using Iso=Eigen::Isometry3d;
// a scratch directory of this run
static int rm_(const char* p,const struct stat*,int,struct FTW*){ return remove(p); }
struct Scratch { char d[32]="/tmp/vpc27_XXXXXX"; Scratch(){ if(!mkdtemp(d)) d[0]=0; } ~Scratch(){ if(d[0]) nftw(d,rm_,16,FTW_DEPTH|FTW_PHYS); } };
static const double QS[8][4]={{1,0,0,0},{0.9,0.1,-0.2,0.3},{0.2,0.7,-0.5,0.4},{-0.1,0.3,0.9,0.2},{0,1,0,0},{0,0,1,0},{0.1,-0.2,0.3,-0.9},{1,0,1,0}};
static Iso pose(const std::string& n,int k){ Eigen::Quaterniond q(QS[k][0],QS[k][1],QS[k][2],QS[k][3]); q.normalize(); Iso t=Iso::Identity(); t.linear()=q.toRotationMatrix(); for(int i=0;i<3;i++) t(i,3)=vp_real((n+std::to_string(i)).c_str()); return t; }
static void eq(const char* n,const Iso& a,const Iso& b){ for(int i=0;i<3;i++){ vp_check_eq((n+std::string("-translation")).c_str(),a(i,3),b(i,3)); for(int j=0;j<3;j++){ vp_check_le((n+std::string("-rotation")).c_str(),a(i,j)-b(i,j),1e-9); vp_check_le((n+std::string("-rotation")).c_str(),b(i,j)-a(i,j),1e-9); } } }
static void put(const std::string& path,const std::string& text){ std::ofstream o(path); o<<text; }
#if MODE==2
static int fields(const YAML::Node& n){ int k=0; for(auto it=n.begin();it!=n.end();++it) k+=1+(it->second.IsMap()?fields(it->second):0); return k; }
static bool damage(YAML::Node n,int& at,int how){ std::vector<std::string> ks; for(auto it=n.begin();it!=n.end();++it) ks.push_back(it->first.as<std::string>()); for(auto& k:ks){ if(at--==0){ YAML::Node v=YAML::Clone(n[k]); if(how==2) n[k]="garbage"; else { n.remove(k); if(how==1) n["misspelt"]=v; } return true; } if(n[k].IsMap()&&damage(n[k],at,how)) return true; } return false; }
void vp_main(){ Scratch s; std::string f=std::string(s.d)+"/file.yaml"; YAML::Node n; bool thrown=false,ok,good=true;
#if POSE
  Iso v=pose("t",vp_concrete(vp_int("rotation",0,POSE==2?0:7))); n=YAML::Node(v);
#else
  rct_optimizations::CameraIntrinsics v; for(int i=0;i<4;i++) v.values[i]=vp_real(S("v",i).c_str()); n=YAML::Node(v);
#endif
#ifdef WRONG
  good=false; int how=vp_concrete(vp_int("how",0,5)); if(how<3){ int at=vp_concrete(vp_int("field",0,15)); vp_assume(at<fields(n)); damage(n,at,how); } std::stringstream t; t<<n; if(how<3) put(f,t.str()); else if(how==3) put(f,""); else if(how==4) put(f,"[1, 2"); 
#else
  { std::stringstream t; t<<n; put(f,t.str()); }
#endif
#if POSE
  Iso a=Iso::Identity(),b=a; a.translation()<<7,8,9; b=a; Iso keep=b; try { a=loadPose(f); } catch(const BadFileException&){ thrown=true; } ok=loadPose(f,b);
#else
  rct_optimizations::CameraIntrinsics a,b; for(int i=0;i<4;i++) a.values[i]=b.values[i]=i+1; auto keep=b; try { a=loadIntrinsics(f); } catch(const BadFileException&){ thrown=true; } ok=loadIntrinsics(f,b);
#endif
  vp_check("accepted",thrown==!good); vp_check("accepted",ok==good); vp_reach("loaded"); if(good&&(thrown||!ok)) return;
#if POSE
  if(!good) eq("kept-on-failure",b,keep); else { eq("pose",a,v); eq("pose",b,v); }
#else
  for(int i=0;i<4;i++) if(!good) vp_check_eq("kept-on-failure",b.values[i],keep.values[i]); else { vp_check_eq("intrinsics",a.values[i],v.values[i]); vp_check_eq("intrinsics",b.values[i],v.values[i]); }
#endif
}
#else
static cv::Mat picture(int i){ cv::Mat m(2,3,CV_8UC3); for(int k=0;k<18;k++) m.data[k]=k*11+i*50+1; return m; }
static bool same(const cv::Mat& a,const cv::Mat& b){ if(a.rows!=b.rows||a.cols!=b.cols||a.type()!=b.type()) return false; for(int k=0;k<18;k++) if(a.data[k]!=b.data[k]) return false; return true; }
void vp_main(){ Scratch s; std::string d=std::string(s.d)+"/set"; ExtrinsicDataSet set; 
#ifdef WRONG
  int how=vp_concrete(vp_int("how",0,5)); set.images.push_back(picture(0)); set.tool_poses.push_back(pose("p0_",3)); 
  if(how==5){ vp_reach("damaged"); vp_check("failed-save-reported",!saveToDirectory(std::string(s.d)+"/missing/set",set)); return; }
  bool saved=saveToDirectory(d,set); vp_check("saved",saved); std::string y=d+"/data.yaml"; if(how==0) remove(y.c_str()); else if(how==1) put(y,"- image: images/0.png"); else if(how==2) put(y,"- pose: poses/0.yaml"); else if(how==3) put(y,"- [1, 2"); else if(how==4) put(y,"- pose: poses/0.yaml\n  image:\n    - 1\n"); bool none=!parseFromFile(y); vp_reach("damaged"); vp_check("damaged-index-rejected",none);
#else
  int n=vp_concrete(vp_int("images",0,IMGS)); for(int i=0;i<n;i++){ set.images.push_back(picture(i)); set.tool_poses.push_back(pose(S("p",i)+"_",(i*3+1)%8)); }
  bool saved=saveToDirectory(d,set); vp_check("saved",saved); std::vector<int> left; for(int i=0;i<n;i++){ int g=vp_concrete(vp_int(S("gone",i).c_str(),0,4)); std::string im=d+"/images/"+std::to_string(i)+".png",po=d+"/poses/"+std::to_string(i)+".yaml"; if(g==0) left.push_back(i); else if(g==1) remove(im.c_str()); else if(g==2) remove(po.c_str()); else if(g==3) put(im,"no picture"); else put(po,"x: garbage"); }
  auto r=parseFromFile(d+"/data.yaml"); vp_reach("loaded"); vp_check("readable",(bool)r); if(!r) return; vp_check("complete-pairs-kept",r->images.size()==left.size()); vp_check("one-pose-per-image",r->images.size()==r->tool_poses.size()); if(r->images.size()!=left.size()||r->tool_poses.size()!=left.size()) return;
  for(size_t k=0;k<left.size();k++){ vp_check("image",same(r->images[k],set.images[left[k]])); eq("pose",r->tool_poses[k],set.tool_poses[left[k]]); }
#endif
}
#endif
#endif
