// Quaternion update.  MODE 0 any update; 1 no update, with derivatives; 2 derivatives at any update
#include "rotvec.h"
#include <ceres/jet.h>
#include <sstream>
#include <algorithm>
#include <map>
#include <rct_optimizations/local_parameterization.h>
using namespace rct_optimizations;
typedef ceres::Jet<double,7> J;
// product of quaternions stored as x, y, z, w
template<class T> static void mul(const T* a,const T* b,T* o){ o[3]=a[3]*b[3]-a[0]*b[0]-a[1]*b[1]-a[2]*b[2]; for(int i=0;i<3;i++){ int j=(i+1)%3,k=(i+2)%3; o[i]=a[3]*b[i]+b[3]*a[i]+a[j]*b[k]-a[k]*b[j]; } }
void vp_main(){ double x[4],e[4],o[4]={9,9,9,9}; for(int i=0;i<4;i++) x[i]=vp_real(("x"+std::to_string(i)).c_str()); EigenQuaternionPlus plus;
#if MODE==1
  double d[3]={0,0,0}; vp_check("updated",plus(x,d,o)); vp_reach("updated"); for(int i=0;i<4;i++) vp_check_eq("no-update",o[i],x[i]);
  J jx[4],jd[3],jo[4]; for(int i=0;i<4;i++) jx[i]=J(x[i],3+i); for(int i=0;i<3;i++) jd[i]=J(0.0,i); plus(jx,jd,jo);
  for(int k=0;k<3;k++){ double u[4]={0,0,0,0}; u[k]=1; mul(u,x,e); for(int i=0;i<4;i++) vp_check_eq("derivative-by-the-update",jo[i].v[k],e[i]); } for(int i=0;i<4;i++) for(int k=0;k<4;k++) vp_check_eq("derivative-by-the-quaternion",jo[i].v[3+k],i==k); for(int i=0;i<4;i++) vp_check_eq("no-update",jo[i].a,x[i]);
#else
  double d[3]; for(int i=0;i<3;i++) d[i]=vp_real(("d"+std::to_string(i)).c_str()); double s=d[0]*d[0]+d[1]*d[1]+d[2]*d[2]; vp_assume(s>MIN2); double n=std::sqrt(s),c=std::cos(n),sn=std::sin(n),q[4]={sn*(d[0]/n),sn*(d[1]/n),sn*(d[2]/n),c}; mul(q,x,e);
#if MODE==0
  vp_check("updated",plus(x,d,o)); vp_reach("updated"); for(int i=0;i<4;i++) vp_check_eq("rotated-by-the-update",o[i],e[i]);
  vp_check_eq("norm-kept",o[0]*o[0]+o[1]*o[1]+o[2]*o[2]+o[3]*o[3],x[0]*x[0]+x[1]*x[1]+x[2]*x[2]+x[3]*x[3]);
#else
  J jx[4],jd[3],jo[4]; for(int i=0;i<4;i++) jx[i]=J(x[i],3+i); for(int i=0;i<3;i++) jd[i]=J(d[i],i); plus(jx,jd,jo); vp_reach("updated");
  for(int i=0;i<4;i++) vp_check_eq("rotated-by-the-update",jo[i].a,e[i]);
  // the quaternion enters linearly
  for(int k=0;k<4;k++){ double u[4]={0,0,0,0}; u[k]=1; mul(q,u,e); for(int i=0;i<4;i++) vp_check_eq("derivative-by-the-quaternion",jo[i].v[3+k],e[i]); }
  for(int k=0;k<3;k++){ double dq[4]; for(int i=0;i<3;i++) dq[i]=d[k]/n*c*(d[i]/n)+sn*((i==k?1:0)/n-d[i]*d[k]/(n*n*n)); dq[3]=-sn*(d[k]/n); mul(dq,x,e); for(int i=0;i<4;i++) vp_check_eq("derivative-by-the-update",jo[i].v[k],e[i]); }
#endif
#endif
}
