// getReprojections: any rigid pose, intrinsics and points (the points are chosen in the camera frame).
#include "rigid.h"
#include <rct_optimizations/types.h>
#include <rct_image_tools/image_utils.h>
using namespace rct_optimizations; using namespace rg;
void vp_main(){ double q[4]; vp_unit("q",4,q); double w=q[0],x=q[1],y=q[2],z=q[3]; Iso T=Iso::Identity();
  T(0,0)=1-2*(y*y+z*z); T(0,1)=2*(x*y-w*z); T(0,2)=2*(x*z+w*y); T(1,0)=2*(x*y+w*z); T(1,1)=1-2*(x*x+z*z); T(1,2)=2*(y*z-w*x); T(2,0)=2*(x*z-w*y); T(2,1)=2*(y*z+w*x); T(2,2)=1-2*(x*x+y*y); for(int i=0;i<3;i++) T(i,3)=vp_real(S("t",i).c_str());
  CameraIntrinsics in; in.fx()=vp_real("fx"); in.fy()=vp_real("fy"); in.cx()=vp_real("cx"); in.cy()=vp_real("cy");
  int n=vp_concrete(vp_int("points",0,NPTS)); std::vector<V3> c,p; for(int i=0;i<n;i++){ V3 v=vec(S("p",i)+"_"); vp_assume(v(2)>1e-6||v(2)<-1e-6); c.push_back(v); V3 t; for(int a=0;a<3;a++){ t(a)=0; for(int b=0;b<3;b++) t(a)=t(a)+T(b,a)*(v(b)-T(b,3)); } p.push_back(t); }
  auto r=rct_image_tools::getReprojections(T,in,p); vp_reach("projected"); vp_check("one-pixel-per-point",(int)r.size()==n); if((int)r.size()!=n) return;
  for(int i=0;i<n;i++){ vp_check_eq("pixel-u",r[i].x,in.fx()*(c[i](0)/c[i](2))+in.cx()); vp_check_eq("pixel-v",r[i].y,in.fy()*(c[i](1)/c[i](2))+in.cy()); } }
