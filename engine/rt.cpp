// Runtime of the symbolic engine: expression DAG, path conditions, obligations, shadow memory.
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <istream>
#include <limits>
#include <map>
#include <set>
#include <ostream>
#include <string>
#include <unordered_map>
#include <vector>
#include <exception>
#include <unistd.h>
#include "vp.h"

typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
namespace {
struct Node { std::string op; u32 w; std::vector<u32> a; double d; u64 v; std::string name; };  // w==0: real
std::vector<Node> N(1);
std::unordered_map<std::string,u32> HC;
FILE* out = nullptr;
std::map<std::string,std::string> in;
u64 seed = 1;
u64 budget_nodes = 3000000;
bool done = false;
std::vector<unsigned char> covered;

void fin(const char* why){
  if(done) return; done = true;
  for(size_t i=0;i<covered.size();i++) if(covered[i]) fprintf(out,"V %zu\n",i);
  fprintf(out,"E %s\n",why); fclose(out);
}
[[noreturn]] void stop(const char* why){ fin(why); _exit(0); }

u64 mask(u32 w){ return w>=64? ~0ull : ((1ull<<w)-1); }
i64 sx(u64 v,u32 w){ if(w>=64) return (i64)v; u64 m=1ull<<(w-1); v&=mask(w); return (i64)((v^m)-m); }

u32 mk(const char* op,u32 w,std::vector<u32> a,double d,u64 v,const std::string& name=""){
  std::string key=op; key+='|'; key+=std::to_string(w);
  for(u32 x:a){ key+=','; key+=std::to_string(x);} 
  if(a.empty()||!name.empty()){ key+='#'; key+=name; if(name.empty()){ u64 b; if(w==0) memcpy(&b,&d,8); else b=v; key+=std::to_string(b);} }
  auto it=HC.find(key); if(it!=HC.end()) return it->second;
  u32 id=N.size(); if(id>=budget_nodes) stop("node-budget");
  Node n; n.op=op;n.w=w;n.a=a;n.d=d;n.v=w?(v&mask(w)):0;n.name=name; N.push_back(n); HC[key]=id;
  fprintf(out,"N %u %s %u",id,op,w);
  for(u32 x:a) fprintf(out," %u",x);
  if(w==0){ if(a.empty()&&name.empty()) fprintf(out," = %a",d); else fprintf(out," = %a",d);} else fprintf(out," = %llu",(unsigned long long)n.v);
  if(!name.empty()) fprintf(out," @ %s",name.c_str());
  fputc('\n',out);
  return id;
}
// ---- NaN boxing
const u64 TAG=0x7FFC000000000000ull; const u32 FTAG=0x7FE00000u;
inline bool symd(double x,u32&id){ u64 b; memcpy(&b,&x,8); if((b>>48)!=0x7FFC) return false; id=(u32)b; return id!=0&&id<N.size(); }
inline double box(u32 id){ u64 b=TAG|id; double x; memcpy(&x,&b,8); return x; }
inline bool symf(float x,u32&id){ u32 b; memcpy(&b,&x,4); if((b&0xFFE00000u)!=FTAG) return false; id=b&0x1FFFFF; return id!=0&&id<N.size(); }
inline float boxf(u32 id){ if(id>0x1FFFFF) stop("float-handle-budget"); u32 b=FTAG|id; float x; memcpy(&x,&b,4); return x; }
struct V { bool s; u32 id; double d; };   // real value: symbolic or concrete
V vd(double x){ u32 id; if(symd(x,id)) return {true,id,N[id].d}; return {false,0,x}; }
V vf(float x){ u32 id; if(symf(x,id)) return {true,id,N[id].d}; return {false,0,(double)x}; }
double rd(const V&v){ return v.s? box(v.id): v.d; }
float rf(const V&v){ return v.s? boxf(v.id): (float)v.d; }
V S(u32 id){ return {true,id,N[id].d}; }
V C(double d){ return {false,0,d}; }
u32 node(const V&v){ return v.s? v.id: mk("fconst",0,{},v.d,0); }
u32 iconst(u32 w,u64 v){ return mk("iconst",w,{},0,v&mask(w)); }

void branch(u32 id,bool taken,const char* kind="P"){
  if(!id) return;
  if(N[id].op=="iconst") return;
  fprintf(out,"%s %u %d\n",kind,id,taken?1:0);
}
// boolean node for comparisons of reals
u32 cmpn(const char* op,const V&a,const V&b,bool val){
  u32 x=node(a),y=node(b);
  return mk(op,1,{x,y},0,val);
}
V arith(int op,V a,V b);
V fcommut(const char* op,V a,V b,double r){
  u32 x=node(a),y=node(b); if(x>y) std::swap(x,y);
  return S(mk(op,0,{x,y},r,0));
}
bool rbranch(const char* op,const V&a,const V&b,bool val){ u32 n=cmpn(op,a,b,val); branch(n,val); return val; }
V neg(V a){
  if(!a.s) return C(-a.d);
  if(N[a.id].op=="fneg") return S(N[a.id].a[0]);
  return S(mk("fneg",0,{a.id},-a.d,0));
}
V arith(int op,V a,V b){
  if(!a.s&&!b.s){
    switch(op){case 1:return C(a.d+b.d);case 2:return C(a.d-b.d);case 3:return C(a.d*b.d);case 4:return C(a.d/b.d);default:return C(std::fmod(a.d,b.d));}
  }
  if((!a.s&&!std::isfinite(a.d))||(!b.s&&!std::isfinite(b.d))){
    V x=a,y=b; // infinities and NaN meet a finite symbolic value
    if(op==3||op==4){ // sign of the symbolic operand matters
      V&s=a.s?a:b; bool z=s.d==0; rbranch("feq",s,C(0),z); if(!z) rbranch("flt",s,C(0),s.d<0);
    }
    return arith(op,C(x.d),C(y.d));
  }
  switch(op){
    case 1: if(!a.s&&a.d==0) return b; if(!b.s&&b.d==0) return a;
      if(a.s&&N[a.id].op=="fneg") return arith(2,b,S(N[a.id].a[0]));
      if(b.s&&N[b.id].op=="fneg") return arith(2,a,S(N[b.id].a[0]));
      return fcommut("fadd",a,b,a.d+b.d);
    case 2: if(!b.s&&b.d==0) return a; if(!a.s&&a.d==0) return neg(b);
      if(a.s&&b.s&&a.id==b.id) return C(0);
      if(b.s&&N[b.id].op=="fneg") return arith(1,a,S(N[b.id].a[0]));
      return S(mk("fsub",0,{node(a),node(b)},a.d-b.d,0));
    case 3: if((!a.s&&a.d==0)||(!b.s&&b.d==0)) return C(0);
      if(!a.s&&a.d==1) return b; if(!b.s&&b.d==1) return a;
      if(!a.s&&a.d==-1) return neg(b); if(!b.s&&b.d==-1) return neg(a);
      return fcommut("fmul",a,b,a.d*b.d);
    case 4:
      if(!b.s&&b.d==1) return a;
      if(b.s){ bool z=b.d==0; rbranch("feq",b,C(0),z);
        if(z){ if(a.s){ bool az=a.d==0; rbranch("feq",a,C(0),az); if(!az) rbranch("flt",a,C(0),a.d<0);} return C(a.d/0.0); } }
      else if(b.d==0){ if(a.s){ bool az=a.d==0; rbranch("feq",a,C(0),az); if(!az) rbranch("flt",a,C(0),a.d<0);} return C(a.d/b.d); }
      if(!a.s&&a.d==0) return C(0);
      if(a.s&&b.s&&a.id==b.id) return C(1);
      return S(mk("fdiv",0,{node(a),node(b)},a.d/b.d,0));
    default:{ // fmod(a,b) = a - trunc(a/b)*b, with the quotient concretised
      V q=arith(4,a,b); if(!q.s) return C(std::fmod(a.d,b.d));
      double t=std::trunc(q.d); rbranch("fle",C(t-(t<=0?1:0)),q,t-(t<=0?1:0)<=q.d); rbranch("fle",q,C(t+(t>=0?1:0)),q.d<=t+(t>=0?1:0));
      return arith(2,a,arith(3,C(t),b)); }
  }
}
u32 fcmp(int p,V a,V b){ // packed result
  if(!a.s&&!b.s){
    double x=a.d,y=b.d; bool u=std::isnan(x)||std::isnan(y),r=false;
    switch(p){case 0:r=false;break;case 1:r=!u&&x==y;break;case 2:r=!u&&x>y;break;case 3:r=!u&&x>=y;break;case 4:r=!u&&x<y;break;case 5:r=!u&&x<=y;break;case 6:r=!u&&x!=y;break;case 7:r=!u;break;
      case 8:r=u||x==y;break;case 9:r=u||x>y;break;case 10:r=u||x>=y;break;case 11:r=u||x<y;break;case 12:r=u||x<=y;break;case 13:r=u||x!=y;break;case 14:r=u;break;case 15:r=true;}
    return r;
  }
  if((!a.s&&!std::isfinite(a.d))||(!b.s&&!std::isfinite(b.d))) return fcmp(p,C(a.s?0.0:a.d),C(b.s?0.0:b.d));
  if(p==0) return 0; if(p==15||p==7) return 1; if(p==14) return 0;
  if(p>=8) p-=7-0; // ueq(8)->1 ugt(9)->2 uge(10)->3 ult(11)->4 ule(12)->5 une(13)->6
  if(a.s&&b.s&&a.id==b.id) return (p==1||p==3||p==5)?1:0;
  u32 n; bool r;
  switch(p){
    case 1: r=a.d==b.d; { u32 x=node(a),y=node(b); if(x>y) std::swap(x,y); n=mk("feq",1,{x,y},0,r);} break;
    case 6: { r=a.d==b.d; u32 x=node(a),y=node(b); if(x>y) std::swap(x,y); u32 e=mk("feq",1,{x,y},0,r); n=mk("not",1,{e},0,!r); r=!r;} break;
    case 2: r=b.d<a.d; n=cmpn("flt",b,a,r); break;
    case 3: r=b.d<=a.d; n=cmpn("fle",b,a,r); break;
    case 4: r=a.d<b.d; n=cmpn("flt",a,b,r); break;
    default: r=a.d<=b.d; n=cmpn("fle",a,b,r); break;
  }
  r = N[n].v;
  return (n<<1)|(r?1:0);
}
bool cond(u32 packed){ if(packed>>1) branch(packed>>1,packed&1); return packed&1; }
V vsqrt(V a){
  if(!a.s) return C(std::sqrt(a.d));
  if(cond(fcmp(4,a,C(0)))) return C(std::numeric_limits<double>::quiet_NaN());
  const Node n=N[a.id];
  return S(mk("fsqrt",0,{a.id},std::sqrt(std::max(0.0,a.d)),0));
}
V vabs(V a){ if(!a.s) return C(std::fabs(a.d)); if(cond(fcmp(4,a,C(0)))) return neg(a); return a; }
void unit_interval(V a,double lo,bool loi,double hi,bool hii){ cond(fcmp(loi?3:2,a,C(lo))); cond(fcmp(hii?5:4,a,C(hi))); }
V f1(int op,V a){
  switch(op){
    case 1: return vsqrt(a);
    case 10: return vabs(a);
    case 30: return a.s? a: C(std::fabs(a.d));   // only compared with infinity
  }
  if(!a.s){ double x=a.d; switch(op){case 2:return C(sin(x));case 3:return C(cos(x));case 4:return C(tan(x));case 5:return C(asin(x));case 6:return C(acos(x));case 7:return C(atan(x));case 8:return C(exp(x));case 9:return C(log(x));case 11:return C(floor(x));case 12:return C(ceil(x));case 13:return C(round(x));case 14:return C(trunc(x));case 15:return C(rint(x));case 16:return C(log10(x));case 17:return C(exp2(x));case 18:return C(cbrt(x));case 19:return C(sinh(x));case 20:return C(cosh(x));case 21:return C(tanh(x));} }
  const char* nm[]={"","","fsin","fcos","ftan","fasin","facos","fatan","fexp","flog"};
  switch(op){
    case 2: if(N[a.id].op=="fneg") return neg(f1(2,S(N[a.id].a[0]))); return S(mk("fsin",0,{a.id},sin(a.d),0));
    case 3: if(N[a.id].op=="fneg") return f1(3,S(N[a.id].a[0])); return S(mk("fcos",0,{a.id},cos(a.d),0));
    case 4: return arith(4,f1(2,a),f1(3,a));
    case 5: case 6: { bool o1=cond(fcmp(2,a,C(1))); bool o2=!o1&&cond(fcmp(4,a,C(-1))); if(o1||o2) return C(std::numeric_limits<double>::quiet_NaN());
      return S(mk(nm[op],0,{a.id},op==5?asin(a.d):acos(a.d),0)); }
    case 7: return S(mk("fatan2",0,{a.id,node(C(1))},atan(a.d),0));
    case 8: return S(mk("fexp",0,{a.id},exp(a.d),0));
    case 9: if(cond(fcmp(5,a,C(0)))) return C(log(a.d)); return S(mk("flog",0,{a.id},log(a.d),0));
    case 11: { double r=floor(a.d); unit_interval(a,r,true,r+1,false); return C(r);} 
    case 12: { double r=ceil(a.d); unit_interval(a,r-1,false,r,true); return C(r);} 
    case 13: { double r=round(a.d); if(r>0) unit_interval(a,r-.5,true,r+.5,false); else if(r<0) unit_interval(a,r-.5,false,r+.5,true); else unit_interval(a,-.5,false,.5,false); return C(r);} 
    case 14: { double r=trunc(a.d); if(r>0) unit_interval(a,r,true,r+1,false); else if(r<0) unit_interval(a,r-1,false,r,true); else unit_interval(a,-1,false,1,false); return C(r);} 
    case 15: { double r=rint(a.d); bool ev=std::fmod(r,2)==0; unit_interval(a,r-.5,ev,r+.5,ev); return C(r);} 
  }
  stop("unsupported-f1");
}
V vpow(V a,V b){
  if(!a.s&&!b.s) return C(pow(a.d,b.d));
  if(!b.s){
    double e=b.d;
    if(e==0) return C(1); if(e==0.5) return vsqrt(a); if(e==-0.5) return arith(4,C(1),vsqrt(a));
    if(e==std::floor(e)&&std::fabs(e)<=16){ int n=(int)std::fabs(e); V r=a; for(int i=1;i<n;i++) r=arith(3,r,a); return e<0?arith(4,C(1),r):r; }
  }
  return S(mk("fpow",0,{node(a),node(b)},pow(a.d,b.d),0));
}
V f2(int op,V a,V b){
  switch(op){
    case 1: return vpow(a,b);
    case 2: if(!a.s&&!b.s) return C(atan2(a.d,b.d)); { 
        bool z=cond(fcmp(1,a,C(0))); if(z){ bool p=cond(fcmp(3,b,C(0))); return C(p?0.0:M_PI); }
        return S(mk("fatan2",0,{node(a),node(b)},atan2(a.d,b.d),0)); }
    case 3: return vsqrt(arith(1,arith(3,a,a),arith(3,b,b)));
    case 4: return arith(5,a,b);
    case 5: if(!a.s&&std::isnan(a.d)) return b; if(!b.s&&std::isnan(b.d)) return a; return cond(fcmp(4,a,b))?a:b;
    case 6: if(!a.s&&std::isnan(a.d)) return b; if(!b.s&&std::isnan(b.d)) return a; return cond(fcmp(2,a,b))?a:b;
    case 7: { V m=vabs(a); bool n; if(!b.s) n=std::signbit(b.d); else n=cond(fcmp(4,b,C(0))); return n?neg(m):m; }
  }
  stop("unsupported-f2");
}
// ---- shadow memory
struct Page{ u32 id[4096]; unsigned char off[4096]; };
std::unordered_map<u64,Page*> PM; bool any=false; u64 lastp=~0ull; Page* lastv=nullptr;
Page* page(u64 p,bool create){ if(p==lastp&&(lastv||!create)) return lastv; auto it=PM.find(p); Page* r=it==PM.end()?nullptr:it->second; if(!r&&create){ r=new Page(); memset(r,0,sizeof *r); PM[p]=r; } lastp=p; lastv=r; return r; }
void setb(u64 a,u32 id,unsigned char off){ Page* p=page(a>>12,id!=0); if(!p) return; p->id[a&4095]=id; p->off[a&4095]=off; }
u32 getb(u64 a,unsigned char&off){ Page* p=page(a>>12,false); if(!p) return 0; off=p->off[a&4095]; return p->id[a&4095]; }
u32 bin(int op,u32 w,u32 a,u32 b){
  const Node &A=N[a],&B=N[b]; u64 x=A.v,y=B.v,r=0; u64 m=mask(w);
  const char* nm[]={"","add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor"};
  switch(op){case 1:r=x+y;break;case 2:r=x-y;break;case 3:r=x*y;break;case 4:r=y?x/y:0;break;case 5:r=y?(u64)(sx(x,w)/sx(y,w)):0;break;case 6:r=y?x%y:0;break;case 7:r=y?(u64)(sx(x,w)%sx(y,w)):0;break;case 8:r=y<w?x<<y:0;break;case 9:r=y<w?x>>y:0;break;case 10:r=(u64)(sx(x,w)>>(y<w?y:w-1));break;case 11:r=x&y;break;case 12:r=x|y;break;case 13:r=x^y;break;}
  r&=m;
  if(A.op=="iconst"&&B.op=="iconst") return iconst(w,r);
  if(op==11){ if(A.op=="iconst"&&A.v==0) return a; if(B.op=="iconst"&&B.v==0) return b; if(A.op=="iconst"&&A.v==m) return b; if(B.op=="iconst"&&B.v==m) return a; if(a==b) return a; }
  if(op==12){ if(A.op=="iconst"&&A.v==0) return b; if(B.op=="iconst"&&B.v==0) return a; if(A.op=="iconst"&&A.v==m) return a; if(B.op=="iconst"&&B.v==m) return b; if(a==b) return a; }
  if(op==13&&w==1){ if(B.op=="iconst"&&B.v==1) return A.op=="not"?A.a[0]:mk("not",1,{a},0,!A.v); if(A.op=="iconst"&&A.v==1) return B.op=="not"?B.a[0]:mk("not",1,{b},0,!B.v); }
  return mk(nm[op],w,{a,b},0,r);
}
u32 lower(u32 id){ // constants become concrete again
  if(id&&N[id].op=="iconst") return 0; return id; }
u32 argsh[64],retsh[8];
double dflt(const std::string& name,double lo,double hi){
  u64 h=1469598103934665603ull^seed*0x9E3779B97F4A7C15ull; for(char c:name){ h^=(unsigned char)c; h*=1099511628211ull; }
  h^=h>>29; h*=0xBF58476D1CE4E5B9ull; h^=h>>32;
  double u=(double)(h%1021+1)/1022.0; double v=lo+(hi-lo)*u;
  double q=std::round(v*64)/64; if(q>=lo&&q<=hi&&q!=0) v=q;
  return v;
}
struct Init{ Init(){
  const char* i=getenv("VP_INPUT"); const char* o=getenv("VP_TRACE"); const char* s=getenv("VP_SEED");
  out=fopen(o?o:"/dev/null","w"); if(s) seed=strtoull(s,0,10);
  static char buf[1<<20]; setvbuf(out,buf,_IOFBF,sizeof buf);
  if(i){ std::ifstream f(i); std::string k,v; while(f>>k>>v) in[k]=v; }
} } init;
double parse(const std::string&s){ return strtod(s.c_str(),0); }
}
extern "C" {
// ---- harness API
double vp_real_in(const char* n,double lo,double hi){
  std::string k=n; double v; auto it=in.find(k);
  if(it!=in.end()) v=parse(it->second); else v=dflt(k,std::max(lo,-3.0)>hi?lo:std::max(lo,-3.0),std::min(hi,3.0)<lo?hi:std::min(hi,3.0));
  u32 id=mk("fin",0,{},v,0,k);
  if(std::isfinite(lo)){ u32 c=cmpn("fle",C(lo),S(id),lo<=v); branch(c,true,"A"); }
  if(std::isfinite(hi)){ u32 c=cmpn("fle",S(id),C(hi),v<=hi); branch(c,true,"A"); }
  if(!(lo<=v&&v<=hi)) stop("assume");
  return box(id);
}
double vp_real(const char* n){ return vp_real_in(n,-INFINITY,INFINITY); }
double vp_fresh(const char* n){ return vp_real(n); }
double vp_exact(double v){ return box(mk("fconst",0,{},v,0)); }
static std::map<u32,std::pair<int,int>> range;
int vp_int(const char* n,int lo,int hi){
  std::string k=n; int v; auto it=in.find(k);
  if(it!=in.end()) v=(int)strtoll(it->second.c_str(),0,10); else v=lo+(int)(std::fabs(dflt(k,0,1))*((double)hi-lo)+0.5);
  if(v<lo) v=lo; if(v>hi) v=hi;
  u32 id=mk("iin",32,{},0,(u32)v,k);
  range[id]={lo,hi};
  branch(mk("sle",1,{iconst(32,(u32)lo),id},0,1),true,"A"); branch(mk("sle",1,{id,iconst(32,(u32)hi)},0,1),true,"A");
  retsh[0]=id; return v;
}
bool vp_bool(const char* n){
  std::string k=n; bool v; auto it=in.find(k);
  if(it!=in.end()) v=it->second!="0"; else v=dflt(k,0,1)>0.3;
  u32 id=mk("iin",1,{},0,v,k); retsh[0]=id; return v;
}
void vp_unit(const char* n,int k,double* o){
  std::vector<double> v(k); double s=0;
  for(int i=0;i<k;i++){ std::string nm=std::string(n)+"_"+std::to_string(i); auto it=in.find(nm); v[i]=it!=in.end()?parse(it->second):dflt(nm,-1,1); s+=v[i]*v[i]; }
  s=std::sqrt(s); if(!(s>1e-12)){ s=1; for(auto&x:v) x=0; v[0]=1; }
  // exact unit vectors stay exact
  std::vector<u32> ids;
  for(int i=0;i<k;i++){ std::string nm=std::string(n)+"_"+std::to_string(i); double x=(s==1)?v[i]:v[i]/s; u32 id=mk("fin",0,{},x,0,nm); ids.push_back(id); o[i]=box(id); }
  fprintf(out,"U"); for(u32 id:ids) fprintf(out," %u",id);
  fprintf(out,"\n");
}
void vp_assume(bool c){ u32 s=argsh[0]; argsh[0]=0; if(s&&N[s].v!=(u64)c) s=0; if(s) branch(s,true,"A"); if(!c) stop(s?"assume":"assume-infeasible"); }
void vp_check(const char* n,bool c){ u32 s=argsh[0]; argsh[0]=0; if(s&&N[s].v!=(u64)c) s=0; fprintf(out,"C %u %d %s\n",s,c?1:0,n); }
static void chk(const char* kind,const char*n,double a,double b){
  V x=vd(a),y=vd(b); u32 i=(x.s||std::isfinite(x.d))?node(x):0,j=(y.s||std::isfinite(y.d))?node(y):0;
  fprintf(out,"%s %u %u %a %a %s\n",kind,i,j,x.d,y.d,n);
}
void vp_check_eq(const char* n,double a,double b){ chk("CE",n,a,b); }
void vp_check_le(const char* n,double a,double b){ chk("CL",n,a,b); }
void vp_reach(const char* n){ fprintf(out,"R %s\n",n); }
bool vp_is_native(){ return false; }
double vp_peek(double a){ return vd(a).d; }
static void enumerate(u32 s,u64 v);
int vp_concrete(int v){ u32 s=argsh[0]; argsh[0]=0; if(s&&(u32)N[s].v==(u32)v) enumerate(s,(u32)v); retsh[0]=0; return v; }
double vp_abstract(const char* fn,int n,const double* a,double value){
  std::vector<u32> ids; for(int i=0;i<n;i++) ids.push_back(node(vd(a[i])));
  V v=vd(value); return box(mk("fuf",0,ids,v.d,0,fn));
}
// ---- instrumentation
void __vp_cov(u32 id){ if(id>=covered.size()) covered.resize(id+1); covered[id]=1; }
double __vp_fd(u32 op,double a,double b){ return rd(arith(op,vd(a),vd(b))); }
float __vp_fs(u32 op,float a,float b){ V x=vf(a),y=vf(b); if(!x.s&&!y.s){ switch(op){case 1:return a+b;case 2:return a-b;case 3:return a*b;case 4:return a/b;default:return std::fmod(a,b);} } return rf(arith(op,x,y)); }
double __vp_fneg_d(double a){ return rd(neg(vd(a))); }
float __vp_fneg_s(float a){ return rf(neg(vf(a))); }
u32 __vp_fcmp_d(u32 p,double a,double b){ return fcmp(p,vd(a),vd(b)); }
u32 __vp_fcmp_s(u32 p,float a,float b){ return fcmp(p,vf(a),vf(b)); }
double __vp_fpext(float a){ V v=vf(a); return rd(v); }
static const bool round32=getenv("VP_ROUND32")!=nullptr;   // narrowing to float loses digits: any value that depends on its argument
float __vp_fptrunc(double a){ V v=vd(a); if(round32&&v.s&&!(N[v.id].op=="fuf"&&N[v.id].name=="round32")) return boxf(mk("fuf",0,{v.id},(double)(float)v.d,0,"round32")); return rf(v); }
double __vp_f1d(u32 op,double a){ return rd(f1(op,vd(a))); }
float __vp_f1s(u32 op,float a){ return rf(f1(op,vf(a))); }
double __vp_f2d(u32 op,double a,double b){ return rd(f2(op,vd(a),vd(b))); }
float __vp_f2s(u32 op,float a,float b){ return rf(f2(op,vf(a),vf(b))); }
double __vp_powid(double a,int n){ return rd(vpow(vd(a),C(n))); }
float __vp_powis(float a,int n){ return rf(vpow(vf(a),C(n))); }
double __vp_itof_d(u32 sg,u32 s,u64 v,double c){ if(!s) return c; return box(mk(sg?"itof":"utof",0,{s},c,0)); }
float __vp_itof_s(u32 sg,u32 s,u64 v,float c){ if(!s) return c; return boxf(mk(sg?"itof":"utof",0,{s},c,0)); }
double __vp_ftoi_d(double a){ V x=vd(a); if(!x.s) return a; return f1(14,x).d; }
float __vp_ftoi_s(float a){ V x=vf(a); if(!x.s) return a; return (float)f1(14,x).d; }
static u32 fpclass(V a,u32 m){
  // bits: 0 snan 1 qnan 2 -inf 3 -normal 4 -subnormal 5 -0 6 +0 7 +sub 8 +normal 9 +inf
  if(!a.s){ double d=a.d; u32 c; if(std::isnan(d)) c=3; else if(std::isinf(d)) c=d<0?4:512; else if(d==0) c=std::signbit(d)?32:64; else { bool sub=std::fabs(d)<std::numeric_limits<double>::min(); c=d<0?(sub?16:8):(sub?128:256);} return (c&m)?1:0; }
  u32 fin=m&0x1F8; if(fin==0x1F8) return 1; if(fin==0) return 0;
  if((fin&0x60)==0x60&&!(fin&~0x60u)) return fcmp(1,a,C(0));
  // sign dependent
  bool n=cond(fcmp(4,a,C(0))); bool z=!n&&cond(fcmp(1,a,C(0))); u32 c=n?8:(z?64:256); return (c&fin)?1:0;
}
u32 __vp_fpclass_d(double a,u32 m){ return fpclass(vd(a),m); }
u32 __vp_fpclass_s(float a,u32 m){ return fpclass(vf(a),m); }
void __vp_bitd(double a){ u32 id; if(symd(a,id)) fprintf(out,"W bitcast %u\n",id); }
void __vp_bitf(float a){ u32 id; if(symf(a,id)) fprintf(out,"W bitcast %u\n",id); }
void __vp_escape_d(double a){ u32 id; if(symd(a,id)) fprintf(out,"W escape %u\n",id); }
void __vp_escape_f(float a){ u32 id; if(symf(a,id)) fprintf(out,"W escape %u\n",id); }
// ints
void __vp_branch(u32 s,u64 c){ if(!s) return; if(N[s].v!=(c&1)){ fprintf(out,"W stale %u\n",s); return; } branch(s,c&1); }
void __vp_selbr_d(u32 s,u64 c,double a,double b){ if(!s) return; if(memcmp(&a,&b,8)==0) return; __vp_branch(s,c); }
// forks so that every value of the node gets its own path: on the conditions it is made of, or value by value
static void bool_leaves(u32 s,std::vector<u32>& o,std::set<u32>& vis,bool& only){ if(!only||!vis.insert(s).second) return; const Node& n=N[s];
  if(n.op=="iconst") return;
  if(n.w==1){ o.push_back(s); if(o.size()>6) only=false; return; }
  if(n.a.empty()||n.op=="iin"){ only=false; return; }
  std::vector<u32> a=n.a; for(u32 x:a){ if(N[x].w==0){ only=false; return; } bool_leaves(x,o,vis,only); } }
static void enumerate(u32 s,u64 v){ if(N[s].op=="iconst") return; u32 w=N[s].w;
  if(w==1){ branch(s,v&1); return; }
  std::vector<u32> lv; std::set<u32> vis; bool only=true; bool_leaves(s,lv,vis,only);
  if(only){ for(u32 b:lv) branch(b,N[b].v&1); return; }
  auto it=range.find(s); i64 val=sx(v,w),lo=it!=range.end()?it->second.first:0;
  if(val<lo||val-lo>4096){ branch(mk("eq",1,{s,iconst(w,v)},0,1),true); return; }
  for(i64 k=lo;k<=val;k++) branch(mk("eq",1,{s,iconst(w,(u64)k&mask(w))},0,k==val),k==val); }
void __vp_conc(u32 s,u64 v){ if(!s) return; if(N[s].v!=(v&mask(N[s].w))) return; enumerate(s,v&mask(N[s].w)); }
void __vp_case(u32 w,u32 s,u64 v,u64 c){ if(!s) return; if(N[s].v!=(v&mask(w))) return; bool t=(v&mask(w))==(c&mask(w)); branch(mk("eq",1,{s,iconst(w,c)},0,t),t); }
u32 __vp_bin(u32 op,u32 w,u32 a,u32 b,u64 x,u64 y){
  if(!a&&!b) return 0;
  if(a&&(N[a].w!=w||N[a].v!=(x&mask(w)))) a=0; if(b&&(N[b].w!=w||N[b].v!=(y&mask(w)))) b=0; if(!a&&!b) return 0;
  if(!a) a=iconst(w,x); if(!b) b=iconst(w,y); return lower(bin(op,w,a,b)); }
u32 __vp_icmp(u32 p,u32 w,u32 a,u32 b,u64 x,u64 y){
  if(!a&&!b) return 0;
  if(a&&(N[a].w!=w||N[a].v!=(x&mask(w)))) a=0; if(b&&(N[b].w!=w||N[b].v!=(y&mask(w)))) b=0; if(!a&&!b) return 0;
  if(!a) a=iconst(w,x); if(!b) b=iconst(w,y); x=N[a].v;y=N[b].v;
  bool r; const char* op; bool sw=false;
  if(p<=2){ r=x==y; u32 i=a,j=b; if(i>j) std::swap(i,j);
      u32 e=N[a].op=="iconst"?b:a; u32 k=N[a].op=="iconst"?a:b;
      if(w==1&&N[k].op=="iconst"){ bool flip=(N[k].v==0)!=(p==2); return flip?(N[e].op=="not"?N[e].a[0]:mk("not",1,{e},0,!N[e].v)):e; }
      if(N[k].op=="iconst"&&N[e].op=="zext"&&N[N[e].a[0]].w==1&&N[k].v<=1){ u32 q=N[e].a[0]; bool flip=(N[k].v==0)!=(p==2); return flip?(N[q].op=="not"?N[q].a[0]:mk("not",1,{q},0,!N[q].v)):q; }
      u32 q=mk("eq",1,{i,j},0,r); return p==1?q:mk("not",1,{q},0,!r); }
  i64 X=sx(x,w),Y=sx(y,w);
  switch(p){
    case 3: op="ult"; sw=true; r=y<x; break;
    case 4: op="ule"; sw=true; r=y<=x; break;
    case 5: op="ult"; r=x<y; break;
    case 6: op="ule"; r=x<=y; break;
    case 7: op="slt"; sw=true; r=Y<X; break;
    case 8: op="sle"; sw=true; r=Y<=X; break;
    case 9: op="slt"; r=X<Y; break;
    default: op="sle"; r=X<=Y; break; }
  if(sw) std::swap(a,b);
  return mk(op,1,{a,b},0,r);
}
}
extern "C" u32 __vp_iabs(u32 w,u32 s,u64 v){ if(!s) return 0; if(N[s].w!=w||N[s].v!=(v&mask(w))) return 0; bool n=sx(v,w)<0; branch(mk("slt",1,{s,iconst(w,0)},0,n),n); return n?lower(bin(2,w,iconst(w,0),s)):s; }
extern "C" u32 __vp_conv(u32 k,u32 w,u32 s){ if(!s) return 0; u64 v=N[s].v; u32 ws=N[s].w;
  if(k==3){ if((N[s].op=="zext"||N[s].op=="sext")&&N[N[s].a[0]].w==w) return N[s].a[0]; return mk("trunc",w,{s},0,v&mask(w)); }
  return k==1? mk("zext",w,{s},0,v): mk("sext",w,{s},0,(u64)sx(v,ws)&mask(w)); }
extern "C" u32 __vp_isel(u32 w,u32 s,u64 c,u32 a,u32 b,u64 x,u64 y){
  if(!s) return (c&1)?a:b; 
  if(N[s].v!=(c&1)) return (c&1)?a:b;
  if(a&&(N[a].w!=w||N[a].v!=(x&mask(w)))) a=0; if(b&&(N[b].w!=w||N[b].v!=(y&mask(w)))) b=0;
  u32 na=a?a:iconst(w,x),nb=b?b:iconst(w,y); if(na==nb) return lower(na);
  if(w==1){ if(N[na].op=="iconst"&&N[nb].op=="iconst") return N[na].v? s: (N[s].op=="not"?N[s].a[0]:mk("not",1,{s},0,!N[s].v)); }
  if(w>=32&&N[na].op=="iconst"&&N[nb].op=="iconst"){ branch(s,c&1); return 0; }   // a choice between two constants: one path each
  return mk("ite",w,{s,na,nb},0,(c&1)?x:y); }
extern "C" u32 __vp_minmax(u32 k,u32 w,u32 a,u32 b,u64 x,u64 y){ if(!a&&!b) return 0; if(!a) a=iconst(w,x); if(!b) b=iconst(w,y); x=N[a].v;y=N[b].v; bool sg=k>=3; bool lt=sg? sx(x,w)<sx(y,w): x<y; u32 c=mk(sg?"slt":"ult",1,{a,b},0,lt); bool mn=(k==1||k==3); return mn? mk("ite",w,{c,a,b},0,lt?x:y): mk("ite",w,{c,b,a},0,lt?y:x); }
extern "C" u32 __vp_ovf(u32 k,u32 sg,u32 w,u32 a,u32 b,u64 x,u64 y){ if(!a) a=iconst(w,x); if(!b) b=iconst(w,y); bool o; unsigned __int128 X=x&mask(w),Y=y&mask(w); if(sg){ __int128 p=sx(x,w),q=sx(y,w),r=k==1?p+q:k==2?p-q:p*q; o= r!=(__int128)sx((u64)r,w);} else { unsigned __int128 r=k==1?X+Y:k==2?X-Y:X*Y; o=(k==2)?X<Y:(r>>w)!=0; } char nm[16]; snprintf(nm,16,"ovf%c%u",sg?'s':'u',k); return mk(nm,1,{a,b},0,o); }
extern "C" u32 __vp_load(const void* p,u32 n,u32 w,u64 val){
  if(!any) return 0; u64 a=(u64)p; unsigned char off=0; u32 id0=0; bool sym=false;
  u32 ids[8]; unsigned char offs[8]={0};
  for(u32 i=0;i<n;i++){ ids[i]=getb(a+i,offs[i]); if(ids[i]){ // stale check
      u64 b=(N[ids[i]].v>>(8*offs[i]))&255; if(b!=((val>>(8*i))&255)) ids[i]=0; } if(ids[i]) sym=true; }
  if(!sym) return 0; id0=ids[0]; bool same=id0&&N[id0].w==8*n; for(u32 i=0;i<n;i++) if(ids[i]!=id0||offs[i]!=i) same=false;
  u32 r;
  if(same) r=id0; else { // assemble bytes
    std::vector<u32> bs; for(u32 i=0;i<n;i++) bs.push_back(ids[i]? mk("byte",8,{ids[i]},0,(val>>(8*i))&255,std::to_string((int)offs[i])): iconst(8,(val>>(8*i))&255));
    r= n==1? bs[0]: mk("concat",8*n,bs,0,val); }
  if(w<8*n) r=__vp_conv(3,w,r);
  return r; }
extern "C" void __vp_store(void* p,u32 n,u32 s,u64 val){ if(!s){ if(any) for(u32 i=0;i<n;i++) setb((u64)p+i,0,0); return; }
  if(N[s].w<8*n){ s=mk("zext",8*n,{s},0,val); }
  any=true; for(u32 i=0;i<n;i++) setb((u64)p+i,s,i); }
extern "C" void __vp_clear(void* p,u64 n){ if(!any) return; for(u64 i=0;i<n;i++){ setb((u64)p+i,0,0);} }
extern "C" void __vp_copy(void* d,const void* s,u64 n){ if(!any) return; if(n>1u<<22) return; std::vector<std::pair<u32,unsigned char>> t(n); for(u64 i=0;i<n;i++){ unsigned char o=0; u32 id=getb((u64)s+i,o); if(id&&((N[id].v>>(8*o))&255)!=*((const unsigned char*)d+i)) id=0; t[i]={id,o}; } for(u64 i=0;i<n;i++) setb((u64)d+i,t[i].first,t[i].second); }
extern "C" void __vp_argput(u32 k,u32 s){ if(k<64) argsh[k]=s; }
extern "C" u32 __vp_argload(u32 k,u64 v){ if(k>=64) return 0; u32 s=argsh[k]; argsh[k]=0; if(s&&N[s].v!=(v&mask(N[s].w))) s=0; return s; }
extern "C" void __vp_retput(u32 k,u32 s){ retsh[k]=s; }
extern "C" u32 __vp_retload(u32 k,u64 v){ u32 s=retsh[k]; retsh[k]=0; if(s&&N[s].v!=(v&mask(N[s].w))) s=0; return s; }
// ---- text streams: a symbolic double prints as a token that reads back as the same expression when the stream's
// precision is enough to round-trip a double; otherwise it prints as an unrelated value
extern "C" void* __vp_ostream_d(std::ostream* o,double x){ u32 id; if(symd(x,id)){ 
    bool exact = o->precision()>=17 && !(o->flags()&std::ios::fixed);
    u32 k=id; if(!exact){ char nm[64]; snprintf(nm,64,"rounded_p%d",(int)o->precision()); k=mk("fuf",0,{id},N[id].d,0,nm); }
    std::string t="~S"+std::to_string(k)+"~"; o->write(t.c_str(),t.size()); } else (*o)<<x; return o; }
extern "C" void* __vp_ostream_f(std::ostream* o,float x){ u32 id; if(symf(x,id)) return __vp_ostream_d(o,box(id)); (*o)<<x; return o; }
extern "C" void* __vp_istream_d(std::istream* i,double* x){ std::istream::pos_type p=i->tellg(); 
    if((i->flags()&std::ios::skipws)) (*i)>>std::ws;
    if(i->good()&&i->peek()=='~'){ i->get(); i->get(); u32 id=0; while(isdigit(i->peek())) id=id*10+(i->get()-'0'); i->get(); if(id&&id<N.size()){ *x=box(id); return i; } i->setstate(std::ios::failbit); return i; }
    (void)p; (*i)>>*x; return i; }
extern "C" void* __vp_istream_f(std::istream* i,float* x){ if((i->flags()&std::ios::skipws)) (*i)>>std::ws;
    if(i->good()&&i->peek()=='~'){ double d=0; __vp_istream_d(i,&d); u32 id=0; if(!i->fail()&&symd(d,id)) *x=__vp_fptrunc(d); return i; }
    (*i)>>*x; return i; }
int main(){ 
  std::set_terminate([]{ stop("terminate"); });
  try { vp_main(); } catch(const std::exception& e){ fprintf(out,"X %s\n",e.what()); fin("exception"); fflush(0); _exit(0);} catch(...){ fin("exception"); _exit(0);} 
  fin("ok"); fflush(0); _exit(0); }
