// Circle grid finder.  The detection of circles and the pattern search are environment models: an ideal front view of
// the target at any position, in-plane angle and scale, found in any order a pattern search can return it in.
#include "vp.h"
#include <string>
#include <rct_image_tools/circle_detector.h>
#include <rct_image_tools/modified_circle_grid_finder.h>
#include <opencv2/calib3d.hpp>
using namespace rct_image_tools;
static std::vector<cv::Point2d> found; static std::vector<cv::KeyPoint> keys; static cv::Size accept; static int dim,none,calls,searches; 
namespace cv { bool findCirclesGrid(InputArray,Size s,OutputArray c,int,const Ptr<FeatureDetector>&){ searches++; auto& v=*(std::vector<Point2d>*)c.getObj(); v.clear(); if(none||s!=accept) return false; v=found; return true; } }
namespace rct_image_tools { CircleDetector::CircleDetector(const CircleDetectorParams& p):params(p){} cv::Ptr<CircleDetector> CircleDetector::create(const CircleDetectorParams& p){ return cv::makePtr<CircleDetector>(p); } cv::Mat CircleDetector::drawDetectedCircles(const cv::Mat& m){ return m; }
// some exposures show too few circles
void CircleDetector::detect(cv::InputArray,std::vector<cv::KeyPoint>& k,cv::InputArray){ k=keys; if(calls++<dim) while((int)k.size()>=NROWS*NCOLS) k.pop_back(); } }
static std::string S(const std::string& a,int i){ return a+std::to_string(i); }
void vp_main(){ const int R=NROWS,C=NCOLS,n=R*C; ModifiedCircleGridTarget t(R,C,0.02);
  // in-plane direction of a target row, at least one pixel between dots; columns point upwards at a right angle to it.
  // FAREY lists the slopes (in twelfths) at which two dots share a coordinate: each of them exactly, and every interval between them.
  static const double FAREY[]={TIES}; const int nt=sizeof(FAREY)/sizeof(double);
#ifdef REJECT
  int quarter=1,sign=0,slope=1,nb=0;
#elif SIZES==1
  int quarter=vp_concrete(vp_int("quarter",0,3)),sign=0,slope=vp_concrete(vp_int("slope",0,1));
#else
  int quarter=vp_concrete(vp_int("quarter",0,3)),sign=vp_concrete(vp_int("sign",0,1)),slope=vp_concrete(vp_int("slope",0,2*nt-2));
#endif
  double e=vp_real_in("twelfth",0.125,64),a=12*e,b,ox=vp_real_in("ox",-4096,4096),oy=vp_real_in("oy",-4096,4096); if(slope%2==0) b=e*FAREY[slope/2]; else { b=vp_real("b"); vp_assume(b>=e*(FAREY[slope/2]+0.125)); vp_assume(b<=e*(FAREY[slope/2+1]-0.125)); } if(sign) b=-b;
  double ux=a,uy=b; for(int i=0;i<quarter;i++){ double h=ux; ux=-uy; uy=h; } double wx=uy,wy=-ux; std::vector<cv::Point2d> im(n); std::vector<double> size(n);
#if SIZES==0
  double d=vp_real("dot"),D=vp_real("large"); vp_assume(d>=1); vp_assume(D>=d*1.05); for(int i=0;i<n;i++) size[i]=d;
#else
  // perspective: dots grow by up to a half across the target; corner dots off by up to a twentieth; the large dot half as large again as its surroundings would be
  double D=0; int gx=1,gy=1;
#ifndef REJECT
  gx=vp_concrete(vp_int("grow-x",-1,1)); gy=vp_concrete(vp_int("grow-y",-1,1));
#endif
  for(int i=0;i<n;i++){ int r=i/C,c=i%C; size[i]=16*(1+0.30/(C-1)*(gx<0?C-1-c:gx*c)+0.20/(R-1)*(gy<0?R-1-r:gy*r)); if((r==0||r==R-1)&&(c==0||c==C-1)){ if(i==n-C) D=size[i]*vp_real_in("large",1.5,10); else size[i]=size[i]*vp_real_in(S("dot",i).c_str(),1,1.05); } }
#endif
  int origin=n-C; size[origin]=D; for(int r=0;r<R;r++) for(int c=0;c<C;c++) im[r*C+c]=cv::Point2d((float)(ox+ux*c+wx*(R-1-r)),(float)(oy+uy*c+wy*(R-1-r)));
  int tr=vp_concrete(vp_int("transposed",0,1)),fr=vp_concrete(vp_int("rows-reversed",0,1)),fc=vp_concrete(vp_int("columns-reversed",0,1)); int fR=tr?C:R,fC=tr?R:C; for(int k=0;k<fR;k++) for(int j=0;j<fC;j++){ int r=tr?j:k,c=tr?k:j; if(fr) r=R-1-r; if(fc) c=C-1-c; found.push_back(im[r*C+c]); }
  accept=cv::Size(fC,fR); int back=NROWS*NCOLS==4?vp_concrete(vp_int("detected-in-reverse",0,1)):fr; for(int i=0;i<n;i++){ int q=back?n-1-i:i; cv::KeyPoint k; k.pt.x=im[q].x; k.pt.y=im[q].y; k.size=size[q]; keys.push_back(k); }
#ifndef REJECT
  int extra=NROWS*NCOLS==4?vp_concrete(vp_int("extra-circle",0,1)):fc; if(extra){ cv::KeyPoint k; k.pt.x=k.pt.y=100000; k.size=D; keys.insert(keys.begin(),k); dim=2*back; } 
#else
  int how=vp_concrete(vp_int("how",0,2)); if(how==0) none=1; else if(how==1){ int q=vp_concrete(vp_int("twice",1,n-1)); keys[q]=keys[0]; } else for(auto& k:keys) k.size=16;
#endif
  ModifiedCircleGridTargetFinder f(t); cv::Mat img(2,2,CV_8UC1,cv::Scalar(0)); TargetFeatures o; bool ok=true; try { const TargetFinder& tf=f; o=tf.findTargetFeatures(img); } catch(const std::exception&){ ok=false; }
#ifdef REJECT
  vp_reach("rejected"); vp_check("rejected",!ok);
#else
  vp_reach("found"); vp_check("complete-view-accepted",ok); if(!ok) return; vp_check("one-feature-per-dot",(int)o.size()==n);
  for(int i=0;i<n;i++){ auto it=o.find(i); vp_check("one-feature-per-dot",it!=o.end()&&it->second.size()==1); if(it==o.end()||it->second.size()!=1) return; const char* nm=i==origin?"origin-at-large-dot":"dot-at-its-index"; vp_check_eq(nm,it->second[0](0),im[i].x); vp_check_eq(nm,it->second[0](1),im[i].y); }
#endif
}
