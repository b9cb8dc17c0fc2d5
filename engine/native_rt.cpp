// Native replay runtime: the same harness, compiled unmodified, on concrete doubles.
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include "vp.h"
static std::map<std::string,std::string> in; static unsigned long long seed=1; static double tol=1e-6; static FILE* out;
static double dflt(const std::string& name,double lo,double hi){
  unsigned long long h=1469598103934665603ull^seed*0x9E3779B97F4A7C15ull; for(char c:name){ h^=(unsigned char)c; h*=1099511628211ull; }
  h^=h>>29; h*=0xBF58476D1CE4E5B9ull; h^=h>>32;
  double u=(double)(h%1021+1)/1022.0; double v=lo+(hi-lo)*u; double q=std::round(v*64)/64; if(q>=lo&&q<=hi&&q!=0) v=q; return v; }
extern "C" {
double vp_real_in(const char* n,double lo,double hi){ auto it=in.find(n); double v; if(it!=in.end()) v=strtod(it->second.c_str(),0);
  else v=dflt(n,std::max(lo,-3.0)>hi?lo:std::max(lo,-3.0),std::min(hi,3.0)<lo?hi:std::min(hi,3.0));
  if(!(lo<=v&&v<=hi)){ fprintf(out,"ASSUME\n"); fclose(out); _exit(0);} return v; }
double vp_real(const char* n){ return vp_real_in(n,-INFINITY,INFINITY); }
double vp_fresh(const char* n){ return vp_real(n); }
double vp_exact(double v){ return v; }
int vp_int(const char* n,int lo,int hi){ auto it=in.find(n); int v; if(it!=in.end()) v=(int)strtoll(it->second.c_str(),0,10); else v=lo+(int)(std::fabs(dflt(n,0,1))*(double)(hi-lo)+0.5); return std::min(std::max(v,lo),hi); }
bool vp_bool(const char* n){ auto it=in.find(n); if(it!=in.end()) return it->second!="0"; return dflt(n,0,1)>0.3; }
void vp_unit(const char* n,int k,double* o){ double s=0; for(int i=0;i<k;i++){ std::string nm=std::string(n)+"_"+std::to_string(i); auto it=in.find(nm); o[i]=it!=in.end()?strtod(it->second.c_str(),0):dflt(nm,-1,1); s+=o[i]*o[i]; }
  s=std::sqrt(s); if(!(s>1e-12)){ for(int i=0;i<k;i++) o[i]=i==0; return; } if(s!=1) for(int i=0;i<k;i++) o[i]/=s; }
void vp_assume(bool c){ if(!c){ fprintf(out,"ASSUME\n"); fclose(out); _exit(0);} }
void vp_check(const char* n,bool c){ fprintf(out,"%s %s\n",c?"PASS":"FAIL",n); }
void vp_check_eq(const char* n,double a,double b){ bool ok=(a==b)||std::fabs(a-b)<=tol*(1+std::max(std::fabs(a),std::fabs(b))); if(!(std::isfinite(a)&&std::isfinite(b))) ok=(a==b)||(std::isnan(a)&&std::isnan(b)); fprintf(out,"%s %s %.17g %.17g\n",ok?"PASS":"FAIL",n,a,b); }
void vp_check_le(const char* n,double a,double b){ bool ok=a<=b+tol*(1+std::max(std::fabs(a),std::fabs(b))); fprintf(out,"%s %s %.17g %.17g\n",ok?"PASS":"FAIL",n,a,b); }
void vp_reach(const char* n){ fprintf(out,"REACH %s\n",n); }
bool vp_is_native(){ return true; }
double vp_peek(double v){ return v; }
int vp_concrete(int v){ return v; }
double vp_abstract(const char*,int,const double*,double v){ return v; }
}
int main(){ const char* i=getenv("VP_INPUT"); if(i){ std::ifstream f(i); std::string k,v; while(f>>k>>v) in[k]=v; }
  const char* s=getenv("VP_SEED"); if(s) seed=strtoull(s,0,10); const char* t=getenv("VP_TOL"); if(t) tol=strtod(t,0);
  const char* o=getenv("VP_TRACE"); out=o?fopen(o,"w"):stdout; setvbuf(out,0,_IOLBF,1<<16);
  try { vp_main(); fprintf(out,"END ok\n"); } catch(const std::exception&e){ fprintf(out,"END exception %s\n",e.what()); } catch(...){ fprintf(out,"END exception\n"); }
  fclose(out); _exit(0); }
