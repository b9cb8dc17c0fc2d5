// Circle detector.  OpenCV's image operations are environment models: any contours with any area, perimeter, hull,
// moments and fitted ellipse.  A contour is identified by its number of points.
// MODE 0 area, circularity, convexity; 1 inertia; 2 colour; 3 ellipse error; 4 grouping; 5 thresholds
#include "vp.h"
#include <cmath>
#include <string>
#include <rct_image_tools/circle_detector.h>
using namespace rct_image_tools;
struct Blob { int level; double area,perimeter,hull,mu11,mu20,mu02; cv::Point2f center; cv::Size2f size; float angle; std::vector<cv::Point> pts; };
static std::vector<Blob> blobs; static int level=-1,gray=0; static std::vector<double> thr; static cv::Mat binary; static bool noise=false;
static Blob& of(cv::InputArray m){ for(auto& b:blobs) if((int)b.pts.size()==(int)m.getMat().total()) return b; vp_check("contours-of-at-least-five-points",false); return blobs[0]; }
namespace cv {
double threshold(InputArray,OutputArray o,double t,double,int ty){ level++; thr.push_back(t); vp_check("binary-threshold",ty==THRESH_BINARY); binary.copyTo(o); return t; }
void findContours(InputArray,OutputArrayOfArrays o,int,int,Point){ auto& v=*(std::vector<std::vector<Point>>*)o.getObj(); v.clear(); if(noise) v.push_back(std::vector<Point>(4)); for(auto& b:blobs) if(b.level==level) v.push_back(b.pts); if(noise) v.push_back(std::vector<Point>(3)); }
void cvtColor(InputArray i,OutputArray o,int c,int){ if(c==COLOR_BGR2GRAY){ gray++; Mat(i.size(),CV_8UC1,Scalar(0)).copyTo(o); } else i.getMat().copyTo(o); }
Moments moments(InputArray m,bool){ Blob& b=of(m); Moments r; r.m00=b.area; r.mu11=b.mu11; r.mu20=b.mu20; r.mu02=b.mu02; return r; }
double arcLength(InputArray m,bool closed){ vp_check("closed-contour",closed); return of(m).perimeter; }
static Blob* hulled; 
void convexHull(InputArray m,OutputArray o,bool,bool){ hulled=&of(m); auto& v=*(std::vector<Point>*)o.getObj(); v.assign(4,Point(0,0)); }
double contourArea(InputArray m,bool oriented){ vp_check("absolute-area",!oriented); if(m.getMat().total()==4) return hulled->hull; return of(m).area; }
RotatedRect fitEllipse(InputArray m){ Blob& b=of(m); RotatedRect r; r.center=b.center; r.size=b.size; r.angle=b.angle; return r; }
}
static std::string S(const std::string& a,int i){ return a+std::to_string(i); }
static double pos(const std::string& n){ double v=vp_real(n.c_str()); vp_assume(v>0); return v; }
// a blob with all of its contour points at one place: ellipse error |e|
static Blob blob(int id,int lv,double px,double py,double a,double b,double e){ Blob q; q.level=lv; q.area=100; q.perimeter=36; q.hull=101; q.mu11=0; q.mu20=q.mu02=800; q.angle=0; q.size.width=2*a; q.size.height=2*b; q.pts.assign(5+id,cv::Point((int)px,(int)py)); q.center.x=px-a*(1+e); q.center.y=py; return q; }
static std::vector<cv::KeyPoint> run(const CircleDetectorParams& p,int type=CV_8UC1){ if(binary.empty()) binary=cv::Mat(20,20,CV_8UC1,cv::Scalar(0)); cv::Mat im(20,20,type,cv::Scalar::all(0)); std::vector<cv::KeyPoint> k(1); cv::Ptr<CircleDetector> d=CircleDetector::create(p); d->detect(im,k); vp_check("grey-image",gray==(type==CV_8UC3)); return k; }
static CircleDetectorParams one(){ CircleDetectorParams p; p.nThresholds=1; p.minRepeatability=1; p.filterByColor=p.filterByArea=p.filterByCircularity=p.filterByInertia=p.filterByConvexity=false; p.maxAverageEllipseError=0.125f; return p; }
void vp_main(){ CircleDetectorParams p=one();
#if MODE<=1
  Blob b=blob(0,0,15,10,5,5,0.0625); b.area=vp_real("area"); vp_assume(b.area>=0); b.perimeter=pos("perimeter"); b.hull=pos("hull"); bool in=true; noise=vp_concrete(vp_int("noise",0,1));
#if MODE==0
  int f=vp_concrete(vp_int("filters",0,7)); p.filterByArea=f&1; p.filterByCircularity=f&2; p.filterByConvexity=f&4; double lo[3],hi[3]; for(int i=0;i<3;i++){ lo[i]=vp_real(S("min",i).c_str()); hi[i]=vp_real(S("max",i).c_str()); } p.minArea=lo[0]; p.maxArea=hi[0]; p.minCircularity=lo[1]; p.maxCircularity=hi[1]; p.minConvexity=lo[2]; p.maxConvexity=hi[2]; vp_assume(lo[1]>=0.001); vp_assume(lo[2]>=0.001);
  if(f&1){ if(b.area<lo[0]) in=false; if(b.area>=hi[0]) in=false; } if(f&2){ double r=4*M_PI*b.area/(b.perimeter*b.perimeter); if(r<lo[1]) in=false; if(r>=hi[1]) in=false; } if(f&4){ double r=b.area/b.hull; if(r<lo[2]) in=false; if(r>=hi[2]) in=false; }
#else
  p.filterByInertia=true; b.mu11=vp_real("mu11"); b.mu20=pos("mu20"); b.mu02=pos("mu02"); vp_assume(b.mu20*b.mu02>b.mu11*b.mu11); double lo=vp_real("min"),hi=vp_real("max"); p.minInertiaRatio=lo; p.maxInertiaRatio=hi; double d=std::sqrt((2*b.mu11)*(2*b.mu11)+(b.mu20-b.mu02)*(b.mu20-b.mu02)),s=b.mu20+b.mu02,r=1; if(d>1e-2) r=(s-d)/(s+d); if(r<lo) in=false; if(r>=hi) in=false;
#endif
  blobs.push_back(b); auto k=run(p); vp_reach(in?"inside":"outside"); vp_check(in?"within-limits-reported":"outside-limits-rejected",(int)k.size()==(in?1:0)); if(in&&k.size()==1){ vp_check_eq("centre-x",k[0].pt.x,b.center.x); vp_check_eq("centre-y",k[0].pt.y,10); vp_check_eq("diameter",k[0].size,10); }
#elif MODE==2
  p.filterByColor=vp_concrete(vp_int("filter",0,1)); static const double C[]={-30,-1,-0.4375,0,3.25,9.75,18.5,19.4375,19.6875,20,4000}; int ix=vp_concrete(vp_int("x",0,10)),iy=vp_concrete(vp_int("y",0,10)); p.circleColor=vp_concrete(vp_int("colour",0,1))*255; binary=cv::Mat(20,20,CV_8UC1,cv::Scalar(255)); for(int y=0;y<20;y++) for(int x=0;x<20;x++) if((x*7+y*3)%4<2) binary.at<uchar>(y,x)=0; 
  Blob b=blob(0,0,0,0,8,8,0); b.center=cv::Point2f(C[ix],C[iy]); b.size=cv::Size2f(std::abs(C[ix])+16,std::abs(C[iy])+16); b.pts.clear(); for(int i=0;i<5;i++) b.pts.push_back(cv::Point(0,0)); p.maxAverageEllipseError=10; blobs.push_back(b); int X=lrint(C[ix]),Y=lrint(C[iy]); bool inside=X>=0&&X<20&&Y>=0&&Y<20,in=!p.filterByColor||(inside&&binary.at<uchar>(Y,X)==p.circleColor);
  auto k=run(p,vp_concrete(vp_int("coloured",0,1))?CV_8UC3:CV_8UC1); vp_reach(in?"inside":"outside"); vp_check(in?"matching-colour-reported":"other-colour-rejected",(int)k.size()==(in?1:0));
#elif MODE==3
  // three places on the contour; an ellipse of any size, three aspect ratios, six angles and two centres
  static const int PT[5][2]={{9,3},{9,3},{4,12},{16,10},{16,10}}; Blob b=blob(0,0,0,0,1,1,0); static const double CX[]={10,9.5},CY[]={8,10.25},AS[]={1,2,0.5}; int ce=vp_concrete(vp_int("centre",0,1)); double cx=CX[ce],cy=CY[ce],w=vp_real("width"),h=w*AS[vp_concrete(vp_int("aspect",0,2))],mx=vp_real("tolerance"); vp_assume(w>=1); int an=vp_concrete(vp_int("angle",0,5)); static const double ANG[]={0,90,180,45,30,137.5}; b.center.x=cx; b.center.y=cy; b.size.width=w; b.size.height=h; b.angle=ANG[an]; for(int i=0;i<5;i++) b.pts[i]=cv::Point(PT[i][0],PT[i][1]); p.maxAverageEllipseError=mx;
  double c=std::cos(ANG[an]*M_PI/180),s=std::sin(ANG[an]*M_PI/180),sum=0; for(int i=0;i<5;i++){ double x=PT[i][0]-cx,y=PT[i][1]-cy,u=(x*c+y*s)*2,v=(x*s-y*c)*2; sum=sum+std::sqrt(u*u/(w*w)+v*v/(h*h)); } double e=sum/5-1; vp_assume(e!=0); if(e<0) e=-e; bool in=e<mx; blobs.push_back(b); auto k=run(p); vp_reach(in?"inside":"outside"); vp_check(in?"good-fit-reported":"bad-fit-rejected",(int)k.size()==(in?1:0)); if(in&&k.size()==1){ vp_check_eq("centre-x",k[0].pt.x,cx); vp_check_eq("centre-y",k[0].pt.y,cy); vp_check_eq("diameter",k[0].size,(w+h)/2); }
#elif MODE==4
  // NB blobs at one or several threshold levels
  static const double E[]={0.0625,0.03125,-0.046875,0.015625}; p.nThresholds=3; p.minRepeatability=vp_concrete(vp_int("repeat",1,3)); double R=vp_real("radius"),D=vp_real("difference"); vp_assume(R>=0); vp_assume(D>=0); p.circleInclusionRadius=R; p.maxRadiusDiff=D; std::vector<double> x,y,r,w; 
  int lv=0; for(int i=0;i<NB;i++){ int up=i?(NB==3?1:vp_concrete(vp_int(S("next-level",i).c_str(),0,1))):0; lv+=up; if(lv>2) lv=2; int py=NB==2&&vp_concrete(vp_int(S("y",i).c_str(),0,1))?13:10; double a=vp_real_in(S("a",i).c_str(),0.5,100),c=vp_real_in(S("b",i).c_str(),0.5,100); Blob q=blob(i,lv,20,py,a,c,E[i]); blobs.push_back(q); x.push_back(q.center.x); y.push_back(py); r.push_back((a+c)/2); w.push_back(1/std::abs(E[i])); }
  std::vector<std::vector<int>> g; for(int i=0;i<NB;i++){ int at=-1; for(size_t j=0;j<g.size()&&at<0;j++){ int o=g[j][0]; double dx=x[i]-x[o],dy=y[i]-y[o],dr=r[i]-r[o]; bool near=true;
#if NB==3
    // values apart by more than rounding
    if(dx<0) dx=-dx; if(dr<0) dr=-dr; vp_assume(dr>=0.001); if(dx>R) vp_assume(dx>=R+0.001); else vp_assume(dx<=R-0.001); if(dr>D) vp_assume(dr>=D+0.001); else vp_assume(dr<=D-0.001);
#endif
 if(dx*dx+dy*dy>R*R) near=false; if(dr>D) near=false; if(-dr>D) near=false; if(near) at=j; } if(at<0) g.push_back({i}); else g[at].push_back(i); }
  auto k=run(p); vp_reach("grouped"); size_t m=0; for(auto& q:g) if(q.size()>=p.minRepeatability) m++; vp_check("one-keypoint-per-repeated-circle",k.size()==m); if(k.size()!=m) return; m=0;
  for(auto& q:g) if(q.size()>=p.minRepeatability){ double sw=0,sx=0,sy=0,sr=0; for(int i:q){ sw+=w[i]; sx=sx+w[i]*x[i]; sy+=w[i]*y[i]; sr=sr+w[i]*r[i]; } vp_check_le("weighted-centre-x",k[m].pt.x,sx/sw+1e-3); vp_check_le("weighted-centre-x",sx/sw,k[m].pt.x+1e-3); vp_check_le("weighted-centre-y",std::abs(k[m].pt.y-sy/sw),1e-3); vp_check_le("weighted-diameter",k[m].size,2*sr/sw+1e-3); vp_check_le("weighted-diameter",2*sr/sw,k[m].size+1e-3); m++; }
#else
  int n=vp_concrete(vp_int("thresholds",0,5)); double lo=vp_real("min"),hi=vp_real("max"); p.minThreshold=lo; p.maxThreshold=hi; p.nThresholds=n; p.minRepeatability=vp_concrete(vp_int("repeat",0,6)); bool ok=true; std::vector<cv::KeyPoint> k; try { k=run(p); } catch(const std::exception&){ ok=false; } vp_check("repeatability-beyond-thresholds-rejected",ok==((int)p.minRepeatability<=n)); if(!ok){ vp_reach("rejected"); return; } vp_reach("thresholds"); vp_check("no-blob-no-keypoint",k.empty());
  vp_check("number-of-thresholds",(int)thr.size()==n); if((int)thr.size()!=n) return; for(int i=0;i<n;i++){ double f=n==1?0.5:(double)i/(n-1); vp_check_eq("threshold-spacing",thr[i],lo+f*(hi-lo)); }
#endif
}
