#include "vp.h"
#include <ceres/jet.h>
#include <rct_optimizations/ceres_math_utilities.h>
#include <cmath>
using namespace rct_optimizations;
typedef ceres::Jet<double,3> J;
// ZERO: points on the image plane give finite pixels.  Otherwise every point off it gives the exact pinhole pixel.
void vp_main(){
  CameraIntrinsics k; k.fx()=vp_real("fx");k.fy()=vp_real("fy");k.cx()=vp_real("cx");k.cy()=vp_real("cy");
  double x=vp_real("x"),y=vp_real("y");
#ifdef ZERO
  double z=0;
#else
  double z=vp_real("z"); vp_assume(z>1e-10||z<-1e-10);
#endif
  Eigen::Vector3d p(x,y,z); double q[3]={x,y,z},o[2]={0,0};
  Eigen::Vector2d u=projectPoint(k,p);
  projectPoint(k,q,o);
  J jq[3]={J(x,0),J(y,1),J(z,2)},jo[2]; projectPoint(k,jq,jo);
  Eigen::Matrix<J,3,1> jp(jq[0],jq[1],jq[2]); Eigen::Matrix<J,2,1> ju=projectPoint(k,jp);
  vp_check("inputs-kept",q[0]==x&&q[1]==y&&q[2]==z&&p.x()==x&&p.y()==y&&p.z()==z);
#ifdef ZERO
  double b=1e300; const double v[8]={u.x(),u.y(),o[0],o[1],jo[0].a,jo[1].a,ju(0).a,ju(1).a};
  for(int i=0;i<8;i++){ vp_check("finite",std::isfinite(v[i])); }
  vp_check_eq("plane-u",u.x(),o[0]); vp_check_eq("plane-v",u.y(),o[1]); vp_check_eq("plane-u",jo[0].a,ju(0).a); vp_check_eq("plane-v",jo[1].a,ju(1).a);
  vp_reach("zero");
#else
  double eu=k.fx()*(x/z)+k.cx(),ev=k.fy()*(y/z)+k.cy();
  vp_check_eq("vector-u",u.x(),eu);vp_check_eq("vector-v",u.y(),ev);
  vp_check_eq("array-u",o[0],eu);vp_check_eq("array-v",o[1],ev);
  double du[3]={k.fx()/z,0,-k.fx()*x/(z*z)},dv[3]={0,k.fy()/z,-k.fy()*y/(z*z)};
  vp_check_eq("jet-array-u",jo[0].a,eu);vp_check_eq("jet-array-v",jo[1].a,ev);
  vp_check_eq("jet-vector-u",ju(0).a,eu);vp_check_eq("jet-vector-v",ju(1).a,ev);
  for(int i=0;i<3;i++){ vp_check_eq("jet-array-du",jo[0].v[i],du[i]);vp_check_eq("jet-array-dv",jo[1].v[i],dv[i]);
    vp_check_eq("jet-vector-du",ju(0).v[i],du[i]);vp_check_eq("jet-vector-dv",ju(1).v[i],dv[i]); }
  vp_reach(z<0?"behind":"front");
#endif
}
