// Parameter masks: any indices over blocks of one to three parameters.
#include "ceres_stub.h"
#include "vp.h"
#include <map>
#include <sstream>
#include <algorithm>
#include <rct_optimizations/local_parameterization.h>
using namespace rct_optimizations;
static std::string S(const std::string& a,int i){ return a+std::to_string(i); }
void vp_main(){
  double a[3]={1,2,3},b[2]={4,5},c[1]={6}; ceres::Problem p; int size=vp_concrete(vp_int("size",1,3)); p.AddParameterBlock(b,2); p.AddParameterBlock(a,size); p.AddParameterBlock(c,1);
  int n=vp_concrete(vp_int("masked",0,NMAX)); std::vector<int> m; for(int i=0;i<n;i++) m.push_back(vp_int(S("index",i).c_str(),-2,4));
  std::map<const double*,std::vector<int>> masks; int other=vp_concrete(vp_int("other",0,3));   // the mask of the second block: none, empty, one index, out of range
  if(vp_concrete(vp_int("present",0,1))) masks[a]=m; else { n=0; m.clear(); } if(other==1) masks[b]={}; if(other==2) masks[b]={1}; if(other==3) masks[b]={0,2};
  bool in[3]={false,false,false},bad=other==3; for(int x:m){ if(x<0) bad=true; else if(x>=size) bad=true; else for(int e=0;e<size;e++) if(x==e) in[e]=true; }
  bool thrown=false; try { addSubsetParameterization(p,masks); } catch(const OptimizationException&){ thrown=true; }
  vp_check("bad-index-rejected",thrown||!bad); vp_check("valid-mask-accepted",!thrown||bad); if(thrown){ vp_reach("rejected"); return; } if(bad) return; vp_reach("masked");
  int frozen=0; for(int e=0;e<size;e++) frozen+=in[e];
  vp_check("whole-block-constant",p.IsParameterBlockConstant(a)==(frozen==size)); vp_check("other-blocks-untouched",!p.IsParameterBlockConstant(b)&&!p.IsParameterBlockConstant(c)&&p.ParameterBlockTangentSize(c)==1&&p.ParameterBlockTangentSize(b)==(other==2?1:2));
  if(frozen==size) return; vp_check("named-elements-frozen",p.ParameterBlockTangentSize(a)==size-frozen);
  // the solver writes to every free element
  struct F { bool operator()(const double* x,const double* y,double* r) const { r[0]=0; return true; } };
  vpc::on_block=[](int,int,const vpc::Block& k,double* v){ for(int i=0;i<k.size;i++) v[i]=100; }; ceres::Solver::Summary s; ceres::Solve(ceres::Solver::Options(),&p,&s);
  for(int e=0;e<size;e++){ vp_check("frozen-elements-keep-their-values",!in[e]||a[e]==e+1); vp_check("other-elements-free",in[e]||a[e]==100); } vp_check("others-solved",b[0]==100&&c[0]==100&&b[1]==(other==2?5:100));
}
