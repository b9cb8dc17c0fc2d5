// Printing.  MODE 0: value formats, MODE 1: banners, MODE 2: transforms.
#include "rigid.h"
#include <rct_common/print_utils.h>
#include <sstream>
#include <array>
#include <cmath>
using namespace rct_common; using namespace rg;
struct Tok { double v; std::string before; };
static bool al(char c){ return isalnum((unsigned char)c)||c=='_'; }
static std::vector<Tok> parse(const std::string& s,std::string* rest=nullptr){ std::vector<Tok> o; std::string cur; size_t i=0; while(i<s.size()){ 
    if(s[i]=='~'){ size_t j=s.find('~',i+1); std::istringstream is(s.substr(i,j-i+1)); double d=0; is>>d; o.push_back({d,cur}); cur.clear(); i=j+1; continue; }
    bool sg=(s[i]=='-'||s[i]=='+')&&i+1<s.size()&&isdigit((unsigned char)s[i+1]); if((sg||isdigit((unsigned char)s[i]))&&(i==0||!al(s[i-1]))){ char* e; double d=strtod(s.c_str()+i,&e); o.push_back({d,cur}); cur.clear(); i=e-s.c_str(); continue; }
    cur+=s[i++]; }
  if(rest) *rest=cur; return o; }
static double shown(double v){ std::ostringstream o; o<<v; auto t=parse(o.str()); return t.empty()?0.0:t[0].v; }
static void numbers(const char* n,const std::string& text,const std::vector<double>& want,const std::vector<std::string>& labels={}){ auto t=parse(text); vp_check(n,t.size()==want.size()); if(t.size()!=want.size()) return;
  for(size_t i=0;i<t.size();i++){ vp_check_eq(n,t[i].v,shown(want[i])); if(i<labels.size()) vp_check((std::string(n)+"-label").c_str(),t[i].before.find(labels[i])!=std::string::npos); } }
struct Capture { std::ostringstream o; std::streambuf* b; Capture(){ b=std::cout.rdbuf(o.rdbuf()); } ~Capture(){ std::cout.rdbuf(b); } std::string text(){ return o.str(); } };
static std::vector<std::string> lines(const std::string& s){ std::vector<std::string> r; std::istringstream i(s); std::string l; while(std::getline(i,l)) r.push_back(l); return r; }
static std::vector<double> deg(double a){ return {a,a*180.0/M_PI}; }
void vp_main(){
#if MODE==0
  V3 v=vec("v"); Eigen::Quaterniond q; for(int i=0;i<4;i++) q.coeffs()(i)=vp_real(S("q",i).c_str()); std::array<double,4> k; std::array<double,5> d; for(int i=0;i<4;i++) k[i]=vp_real(S("k",i).c_str()); for(int i=0;i<5;i++) d[i]=vp_real(S("d",i).c_str());
  numbers("translation",getStringXYZ(v),{v(0),v(1),v(2)},{"xyz"});
  numbers("roll-pitch-yaw",getStringRPY(v),{v(2),v(2)*180/M_PI,v(1),v(1)*180/M_PI,v(0),v(0)*180/M_PI},{"rpy"});
  numbers("quaternion",getStringQuaternion(q),{q.x(),q.y(),q.z(),q.w()},{"qxyzw"});
  numbers("intrinsics",getStringIntrinsics(k),{k[0],k[1],k[2],k[3]},{"fx","fy","cx","cy"});
  numbers("distortion",getStringDistortion(d),{d[0],d[1],d[2],d[3],d[4]},{"k1","k2","p1","p2","k3"});
  { Capture c; printCameraIntrinsics(k,"a camera"); numbers("printed-intrinsics",c.text(),{k[0],k[1],k[2],k[3]},{"a camera","fy","cx","cy"}); }
  { Capture c; printCameraDistortion(d,"a lens"); numbers("printed-distortion",c.text(),{d[0],d[1],d[2],d[3],d[4]},{"a lens","k2","p1","p2","k3"}); }
  { bool conv=vp_concrete(vp_int("converged",0,1)); double a=vp_real("initial"),b=vp_real("final"); vp_assume(a>=0); vp_assume(b>=0); Capture c; printOptResults(conv,a,b); numbers("printed-results",c.text(),{conv?1.0:0.0,std::sqrt(a),std::sqrt(b)},{"converge","Initial","Final"}); }
  { Capture c; printNewLine(); vp_check("newline",c.text()=="\n"); } vp_reach("printed");
#elif MODE==1
  int n=vp_concrete(vp_int("length",0,TL)),w=vp_concrete(vp_int("width",-1,WD)); std::string t; for(int i=0;i<n;i++) t+=(char)('a'+i%26); Capture c; if(w<0) printTitle(t); else printTitle(t,w); auto l=lines(c.text()); vp_reach("printed");
  vp_check("three-lines",l.size()==3); if(l.size()!=3) return; int want=w<0?80:w; std::string star(l[0].size(),'*'); vp_check("framed",l[0]==star&&l[2]==star); vp_check("same-width",l[1].size()==l[0].size()); vp_check("wide-enough",(int)l[0].size()>=want&&(int)l[0].size()>=n+8); vp_check("not-wider-than-needed",(int)l[0].size()<=std::max(want,n+8)+1);
  size_t p=l[1].find(" "+t+" "); vp_check("title-shown",p!=std::string::npos); if(p==std::string::npos) return; size_t r=l[1].size()-p-n-2; vp_check("centred",p==r); vp_check("stars-around",l[1].substr(0,p)==std::string(p,'*')&&l[1].substr(p+n+2)==std::string(r,'*'));
#else
  static const double AX[6][4]={{1,0,0,0},{0.9,0.1,-0.2,0.3},{0.2,0.7,-0.5,0.4},{-0.1,0.3,0.9,0.2},{0.7071,0,0.7071,0},{0.1,-0.8,0.3,-0.6}};
  int k=vp_concrete(vp_int("rotation",0,5)); Eigen::Quaterniond q(AX[k][0],AX[k][1],AX[k][2],AX[k][3]); q.normalize(); Iso t=Iso::Identity(); t.linear()=q.toRotationMatrix(); for(int i=0;i<3;i++) t(i,3)=vp_real(S("t",i).c_str());
  auto rotates=[&](const char* n,const Tok* a,const Eigen::Matrix3d& want){ // roll, pitch, yaw with their degrees
    double r=a[0].v,p=a[2].v,y=a[4].v; for(int i=0;i<3;i++) vp_check((std::string(n)+"-degrees").c_str(),std::fabs(a[2*i].v*180/M_PI-a[2*i+1].v)<1e-3); Eigen::Matrix3d m=(Eigen::AngleAxisd(y,V3::UnitZ())*Eigen::AngleAxisd(p,V3::UnitY())*Eigen::AngleAxisd(r,V3::UnitX())).toRotationMatrix(); vp_check(n,(m-want).norm()<1e-4); };
  { Capture c; printTransform(t,"parent","child","what"); auto l=lines(c.text()); std::string txt=c.text(); vp_check("names",txt.find("what")!=std::string::npos&&txt.find("parent to child")!=std::string::npos);
    auto a=parse(txt); vp_check("count",a.size()==16+3+6+4); if(a.size()!=29) return; for(int i=0;i<4;i++) for(int j=0;j<4;j++){ double v=a[i*4+j].v; if(j==3&&i<3) vp_check_eq("matrix",v,shown(t(i,3))); else vp_check("matrix",std::fabs(v-t.matrix()(i,j))<1e-5); }
    for(int i=0;i<3;i++) vp_check_eq("translation",a[16+i].v,shown(t(i,3))); rotates("roll-pitch-yaw",&a[19],t.linear());
    double s=a[25].v*q.x()+a[26].v*q.y()+a[27].v*q.z()+a[28].v*q.w(); vp_check("quaternion",std::fabs(std::fabs(s)-1)<1e-4); }
  { int b=vp_concrete(vp_int("base",0,5)); Iso u=pose("u",b); double want=b==0?2*std::acos(std::min(1.0,std::fabs(q.w()))):-1; Iso v=u; v.linear()=u.linear()*q.toRotationMatrix(); double dx=vp_real("dx"),dy=vp_real("dy"),dz=vp_real("dz"); v(0,3)=v(0,3)+dx; v(1,3)=v(1,3)+dy; v(2,3)=v(2,3)+dz;
    Capture c; printTransformDiff(u,v,"parent","child","what"); std::string txt=c.text(); vp_check("names",txt.find("what")!=std::string::npos&&txt.find("parent to child")!=std::string::npos); auto a=parse(txt); a.erase(std::remove_if(a.begin(),a.end(),[](const Tok& x){ return x.before.size()>=10&&x.before.compare(x.before.size()-10,10,"Transform ")==0; }),a.end());
    vp_check("count",a.size()==4+7+16+4+7); if(a.size()!=38) return; double n2=dx*dx; n2=n2+dy*dy; n2=n2+dz*dz; double n=std::sqrt(n2); vp_check_eq("distance",a[0].v,shown(n)); double d[3]={dx,dy,dz}; for(int i=0;i<3;i++) vp_check_eq("offset",a[1+i].v,shown(d[i]));
    double ang=2*std::atan2(q.vec().norm(),std::fabs(q.w()))*180/M_PI; (void)want; vp_check("angle",std::fabs(std::fabs(a[4].v)-ang)<1e-2); rotates("difference-rotation",&a[5],q.toRotationMatrix());
    double e[3]; for(int i=0;i<3;i++){ e[i]=0; for(int j=0;j<3;j++) e[i]=e[i]+u(j,i)*d[j]; } for(int i=0;i<4;i++) for(int j=0;j<4;j++){ double v=a[11+i*4+j].v; if(j==3&&i<3) vp_check_eq("difference-matrix",v,shown(e[i])); else vp_check("difference-matrix",std::fabs(v-(i<3&&j<3?q.toRotationMatrix()(i,j):(double)(i==j)))<1e-5); }
    vp_check_eq("relative-distance",a[27].v,shown(n)); for(int i=0;i<3;i++) vp_check_eq("relative-offset",a[28+i].v,shown(e[i])); vp_check("relative-angle",std::fabs(std::fabs(a[31].v)-ang)<1e-2); rotates("relative-rotation",&a[32],q.toRotationMatrix()); }
  vp_reach("printed");
#endif
}
