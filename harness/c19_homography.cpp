// Homography error.  MODE 0: NH concrete homographies in exact arithmetic, every other correspondence arbitrary.
// MODE 1: one-parameter families of homographies, errors vanish.  DIM: image dimension.
#include "vp.h"
#include <rct_optimizations/validation/homography_validation.h>
#include <cmath>
using namespace rct_optimizations;
typedef Correspondence<DIM,3> C;
static std::string S(const std::string& a,int i){ return a+std::to_string(i); }
struct Pick : CorrespondenceSampler { std::vector<std::size_t> idx; std::vector<std::size_t> getSampleCorrespondenceIndices() const override { return idx; } };
static const double HS[4][8]={{1,0,0,0,1,0,0,0},{2,0.5,3,-1,1.5,-4,0.125,-0.0625},{0,-3,100,2.5,0,50,0.03125,0.25},{-4,1,0.5,0.25,-2,8,-0.125,0.0625}};
static const double PX[10]={0,1,0,1,0.5,0.25,1,0.75,2,0.5},PY[10]={0,0,1,1,0.25,0.5,0.5,0.75,1,2};
static const std::size_t PK[3][5]={{0,1,2,3,8},{3,1,0,2,9},{8,3,9,0,5}};
static void image(C& c,const double* H,double x,double y,double z){ double k=H[6]*x+H[7]*y+1.0,u=(H[0]*x+H[1]*y+H[2])/k,v=(H[3]*x+H[4]*y+H[5])/k;
  if(DIM==3){ c.in_image(0)=u*z; c.in_image(1)=v*z; c.in_image(DIM-1)=z; } else { c.in_image(0)=u; c.in_image(1)=v; } }
void vp_main(){ int n=10,ns=NS; double H[8]; Pick s; int pk=vp_concrete(vp_int("pick",0,NPICK-1)); for(int i=0;i<ns;i++) s.idx.push_back(PK[pk][i]);
  typename C::Set cs(n);
#if MODE==0
  int h=vp_concrete(vp_int("homography",4-NH,3)); for(int i=0;i<8;i++) H[i]=vp_exact(HS[h][i]);
#else
  double t=vp_real_in("t",-0.125,0.125); int k=vp_concrete(vp_int("entry",0,7)); for(int i=0;i<8;i++) H[i]=vp_exact(HS[1][i]); H[k]=H[k]+t;
#endif
  for(int i=0;i<n;i++){ double x=vp_exact(PX[i]),y=vp_exact(PY[i]); cs[i].in_target=Eigen::Vector3d(x,y,0); image(cs[i],H,x,y,vp_exact(DIM==3&&i%2?-2.0:4.0)); }
#if MODE==0
  int f=4+vp_concrete(vp_int("free",0,1))*3; bool used=false; for(auto i:s.idx) used=used||(int)i==f; if(used) f=6; C& c=cs[f]; for(int i=0;i<3;i++) c.in_target(i)=vp_real(S("p",i).c_str()); for(int i=0;i<DIM;i++) c.in_image(i)=vp_real(S("m",i).c_str());
  double kk=H[6]*c.in_target(0)+H[7]*c.in_target(1)+1.0; vp_assume(kk>0.01||kk<-0.01); if(DIM==3) vp_assume(c.in_image(DIM-1)>0.01||c.in_image(DIM-1)<-0.01);
#endif
  Eigen::VectorXd e=calculateHomographyError(cs,s); vp_reach("measured"); vp_check("one-error-per-correspondence",e.size()==n); if(e.size()!=n) return;
  for(int i=0;i<n;i++){
#if MODE==0
    if(i==f){ C x; image(x,H,c.in_target(0),c.in_target(1),c.in_image(DIM-1)); double a=c.in_image(0)-x.in_image(0),b=c.in_image(1)-x.in_image(1); vp_check("not-negative",e(i)>=0); vp_check_eq("squared-error",e(i)*e(i),a*a+b*b); continue; }
#endif
    vp_check_eq("zero-error",e(i),0.0); }
}
