// Marker finders.  OpenCV's detectors are environment models: any markers, any image coordinates, any refinement.
// MODE 0 ArUco find, 1 ArUco draw, 2 ChArUco find, 3 ChArUco draw, 4 circle grid draw
#include "vp.h"
#include <string>
#include <rct_image_tools/aruco_finder.h>
#include <rct_image_tools/charuco_finder.h>
using namespace rct_image_tools;
typedef std::vector<cv::Point2f> Pts; typedef std::vector<Pts> Sets; typedef std::vector<int> Ids;
static std::string S(const std::string& a,int i){ return a+std::to_string(i); }
static cv::Point2f px(const std::string& n){ cv::Point2f p; p.x=vp_real((n+"u").c_str()); p.y=vp_real((n+"v").c_str()); return p; }
static Pts four(const std::string& n){ Pts p; for(int k=0;k<4;k++) p.push_back(px(S(n+"c",k))); return p; }
static const int ID[4]={17,3,200,0};
// the scene: markers seen at first, their corners after refinement, markers recovered by refinement, ChArUco corners
static Ids first,cids; static Sets seen,refined; static std::vector<int> rids; static Pts corners; static bool refine_=false; static int detected=0,refinements=0,interpolated=0,drawn=0; static const cv::aruco::Board* board; static const cv::aruco::Dictionary* dict;
static Ids dids; static Sets dsets; static Pts dpts;
static Ids& ids(cv::InputArray a){ return *(Ids*)a.getObj(); } static Sets& sets(cv::InputArray a){ return *(Sets*)a.getObj(); } static Pts& pts(cv::InputArray a){ return *(Pts*)a.getObj(); }
static void img(cv::InputArray a){ cv::Mat m=a.getMat(); bool same=m.rows==4&&m.cols==5; if(same) for(int y=0;y<4;y++) for(int x=0;x<5;x++) if(m.at<uchar>(y,x)!=x*40+y) same=false; vp_check("given-image-searched",same); }
static void mark(cv::InputOutputArray a){ drawn++; cv::Mat m=a.getMat(); m.at<uchar>(2,2)=255; }
static bool marked(const cv::Mat& m){ if(m.rows!=4||m.cols!=5) return false; for(int y=0;y<4;y++) for(int x=0;x<5;x++) if(m.at<uchar>(y,x)!=(x==2&&y==2?255:x*40+y)) return false; return true; }
namespace cv { namespace aruco {
void detectMarkers(InputArray i,const Ptr<Dictionary>& d,OutputArrayOfArrays c,OutputArray o,const Ptr<DetectorParameters>&,OutputArrayOfArrays r){ img(i); vp_check("dictionary-of-the-target",d.get()==dict); detected++; ids(o)=first; sets(c)=seen; if(r.needed()) sets(r).clear(); }
void refineDetectedMarkers(InputArray i,const Ptr<Board>& b,InputOutputArrayOfArrays c,InputOutputArray o,InputOutputArrayOfArrays,InputArray,InputArray,float,float,bool,OutputArray,const Ptr<DetectorParameters>&){ img(i); vp_check("board-of-the-target",b.get()==board); vp_check("detected-markers-refined",ids(o)==first); refinements++; if(refine_){ ids(o)=rids; sets(c)=refined; } }
int interpolateCornersCharuco(InputArrayOfArrays c,InputArray o,InputArray i,const Ptr<CharucoBoard>& b,OutputArray cc,OutputArray ci,InputArray,InputArray,int){ img(i); vp_check("board-of-the-target",b.get()==board); interpolated++; vp_check("all-markers-interpolated",ids(o)==first); Sets& q=sets(c); vp_check("all-markers-interpolated",q.size()==seen.size()); for(size_t m=0;m<q.size()&&m<seen.size();m++) for(int k=0;k<4;k++){ vp_check_eq("marker-corners-interpolated",q[m][k].x,seen[m][k].x); vp_check_eq("marker-corners-interpolated",q[m][k].y,seen[m][k].y); } pts(cc)=corners; ids(ci)=cids; return (int)cids.size(); }
void drawDetectedMarkers(InputOutputArray i,InputArrayOfArrays c,InputArray o,Scalar){ mark(i); dids=ids(o); dsets=sets(c); }
void drawDetectedCornersCharuco(InputOutputArray i,InputArray c,InputArray o,Scalar){ mark(i); dids=ids(o); dpts=pts(c); }
} }
static void same(const char* n,const Eigen::Vector2d& a,const cv::Point2f& b){ vp_check_eq(n,a(0),b.x); vp_check_eq(n,a(1),b.y); }
void vp_main(){ cv::Mat im(4,5,CV_8UC1,cv::Scalar(0)); for(int y=0;y<4;y++) for(int x=0;x<5;x++) im.at<uchar>(y,x)=x*40+y; auto dic=cv::aruco::getPredefinedDictionary(cv::aruco::DICT_6X6_250); int n=vp_concrete(vp_int("markers",0,3));
#if MODE<=1
  auto b=cv::aruco::GridBoard::create(2,2,0.5f,0.125f,dic); ArucoGridTarget t(b); board=b.get(); dict=b->dictionary.get(); ArucoGridBoardTargetFinder f(t);
#else
  auto b=cv::aruco::CharucoBoard::create(3,3,0.5f,0.25f,dic); CharucoGridTarget t(b); board=b.get(); dict=b->dictionary.get(); CharucoGridBoardTargetFinder f(t);
#endif
  const TargetFinder& base=f; vp_check("own-target",dynamic_cast<const decltype(t)*>(&base.target())&&dynamic_cast<const decltype(t)&>(base.target()).board==b);
#if MODE==0
  int lost=vp_concrete(vp_int("recovered",0,1)); refine_=vp_concrete(vp_int("refined",0,1)); for(int i=0;i<n;i++){ first.push_back(ID[i]); seen.push_back(four(S("m",i))); } rids=first; refined=seen; if(refine_){ for(int i=0;i<n;i++) refined[i]=four(S("r",i)); if(lost){ rids.push_back(ID[3]); refined.push_back(four("r3")); } }
  vp_reach(n?"markers":"none"); auto r=base.findTargetFeatures(im); vp_check("image-searched",detected>0); const Ids& w=refine_?rids:first; const Sets& ws=refine_?refined:seen;
  vp_check("every-marker-reported",r.size()==w.size()); for(size_t i=0;i<w.size();i++){ auto it=r.find(w[i]); vp_check("reported-under-its-id",it!=r.end()); if(it==r.end()) return; vp_check("four-corners",it->second.size()==4); if(it->second.size()!=4) return; for(int k=0;k<4;k++) same("corner-at-its-place",it->second[k],ws[i][k]); }
#elif MODE==1
  TargetFeatures q; std::map<int,Pts> w; for(int i=0;i<n;i++){ Pts p=four(S("m",i)); w[ID[i]]=p; for(auto& c:p) q[ID[i]].push_back(Eigen::Vector2d(c.x,c.y)); } vp_reach("drawn"); cv::Mat o=base.drawTargetFeatures(im,q); vp_check("drawn",drawn>0); vp_check("drawn-image-returned",marked(o)); vp_check("every-marker-drawn",(int)dids.size()==n&&(int)dsets.size()==n); if((int)dids.size()!=n||(int)dsets.size()!=n) return;
  std::map<int,Pts> g; for(int i=0;i<n;i++) g[dids[i]]=dsets[i]; vp_check("every-marker-drawn",g.size()==w.size()); for(auto& kv:w){ vp_check("marker-drawn-under-its-id",g.count(kv.first)==1&&g[kv.first].size()==4); if(g[kv.first].size()!=4) return; for(int k=0;k<4;k++) same("marker-drawn-at-its-place",Eigen::Vector2d(g[kv.first][k].x,g[kv.first][k].y),kv.second[k]); }
#elif MODE==2
  int m=vp_concrete(vp_int("corners",0,3)); static const int CID[3]={2,0,3}; for(int i=0;i<n;i++){ first.push_back(ID[i]); seen.push_back(four(S("m",i))); } for(int i=0;i<m;i++){ cids.push_back(CID[i]); corners.push_back(px(S("q",i))); }
  TargetFeatures r; bool ok=true; try { r=base.findTargetFeatures(im); } catch(const std::exception&){ ok=false; } vp_check("image-searched",detected>0); vp_check("no-markers-rejected",ok==(n>0)); if(!ok){ vp_reach("none"); return; } vp_reach("markers"); vp_check("every-corner-reported",r.size()==cids.size());
  for(int i=0;i<m;i++){ auto it=r.find(CID[i]); vp_check("reported-under-its-id",it!=r.end()); if(it==r.end()) return; vp_check("one-coordinate-per-corner",it->second.size()==1); if(it->second.size()!=1) return; same("corner-at-its-place",it->second[0],corners[i]); }
#else
  TargetFeatures q; std::map<int,cv::Point2f> w; for(int i=0;i<n;i++){ cv::Point2f p=px(S("m",i)); w[ID[i]]=p; q[ID[i]].push_back(Eigen::Vector2d(p.x,p.y)); } vp_reach("drawn"); cv::Mat o=base.drawTargetFeatures(im,q); vp_check("drawn",drawn>0); vp_check("drawn-image-returned",marked(o)); vp_check("every-corner-drawn",(int)dids.size()==n&&(int)dpts.size()==n); if((int)dids.size()!=n||(int)dpts.size()!=n) return;
  std::map<int,cv::Point2f> g; for(int i=0;i<n;i++) g[dids[i]]=dpts[i]; for(auto& kv:w){ vp_check("corner-drawn-under-its-id",g.count(kv.first)==1); if(!g.count(kv.first)) return; same("corner-drawn-at-its-place",Eigen::Vector2d(g[kv.first].x,g[kv.first].y),kv.second); }
#endif
}
