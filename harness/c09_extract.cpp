// Covariance extraction from a problem: symbolic matrix, masks, label counts and failures of the computation.
#include "calib.h"
#include <rct_optimizations/covariance_analysis.h>
static double A[3],B[2]; static double* blk[2]={A,B}; static int sz[2]={3,2};
#ifdef LABELS
#define MASKABLE(b,e) ((e)==1)
#else
#define MASKABLE(b,e) true
#endif
struct Cost { template<class T> bool operator()(const T* a,const T* b,T* r) const { r[0]=a[0]+b[0]; return true; } };
static std::string ref(int b,int e){ return std::to_string(b)+"."+std::to_string(e); }
static double entry(int b1,int e1,int b2,int e2){ std::string a=ref(b1,e1),b=ref(b2,e2);
  if(a==b){ double v=vp_real(("var"+a).c_str()); vp_assume(v>1e-6); return v; }
  return a<b? vp_real(("cov"+a+"_"+b).c_str()): vp_real(("cov"+b+"_"+a).c_str()); }
void vp_main(){
  ceres::Problem p; p.AddResidualBlock(new ceres::AutoDiffCostFunction<Cost,1,3,2>(new Cost),nullptr,A,B);
  vpc::cov=[](const double* a,int i,const double* b,int j){ return entry(a==B,i,b==B,j); };
  bool cok=vp_bool("compute_ok"),gok=vp_bool("get_ok"); vpc::cov_compute_ok=[=]{ return cok; }; vpc::cov_get_ok=[=]{ return gok; };
  
#ifdef LABELS
  int form=vp_concrete(vp_int("form",2,3));
#else
  int form=vp_concrete(vp_int("form",0,FORMS));
#endif
  bool named=form==2||form==3,ordered=form==1||form==3,swap=false; if(ordered){ if(vp_concrete(vp_int("swap",0,1))) swap=true; };
  std::map<const double*,std::vector<std::string>> names; std::map<const double*,std::vector<int>> masks; bool bad=false; std::vector<std::pair<int,int>> keep; std::vector<std::string> lab;
  for(int i=0;i<2;i++){ int b=swap?1-i:i; std::vector<int> m; 
    for(int e=sz[b]-1;e>=0;e--) if(MASKABLE(b,e)&&vp_bool(("mask"+ref(b,e)).c_str())) m.push_back(e);
    for(int e=0;e<sz[b];e++) if(std::find(m.begin(),m.end(),e)==m.end()){ keep.push_back({b,e}); lab.push_back(named?"L"+ref(b,e):"block"+std::to_string(i)+"_element"+std::to_string(e)); }
    if(!m.empty()) masks[blk[b]]=m; }
  if(named){ 
#ifdef LABELS
    int n[2]={vp_concrete(vp_int("labels0",0,4)),vp_concrete(vp_int("labels1",0,3))};
#else
    int n[2]={3,2};
#endif
    for(int b=0;b<2;b++){ for(int e=0;e<n[b];e++) names[blk[b]].push_back("L"+ref(b,e)); if(n[b]==0) names[blk[b]]={}; if(n[b]!=sz[b]) bad=true; }
#ifdef LABELS
    if(vp_bool("missing_block")){ names.erase(blk[1]); bad=true; }
#endif
  }
  std::vector<const double*> order={blk[swap],blk[!swap]}; CovarianceResult r; bool thrown=false;
  try { r= form==0? computeCovariance(p,masks): form==1? computeCovariance(p,order,masks): form==2? computeCovariance(p,names,masks): computeCovariance(p,order,names,masks); }
  catch(const CovarianceException&){ thrown=true; }
  bool fail=bad||!cok||!gok; vp_check("failure-reported",thrown==fail); vp_reach(fail?"failed":"computed"); if(thrown||fail) return;
  int n=(int)keep.size(); bool shape=r.covariance_matrix.rows()==n&&r.covariance_matrix.cols()==n; vp_check("exactly-unmasked",shape&&(int)r.standard_deviations.size()==n); if(!shape||(int)r.standard_deviations.size()!=n) return;
  for(int i=0;i<n;i++){ for(int j=0;j<n;j++) vp_check_eq("own-entry",r.covariance_matrix(i,j),entry(keep[i].first,keep[i].second,keep[j].first,keep[j].second));
    vp_check("own-label",r.standard_deviations[i].names.first==lab[i]); vp_check_eq("own-deviation",r.standard_deviations[i].value,std::sqrt(entry(keep[i].first,keep[i].second,keep[i].first,keep[i].second))); }
  size_t k=0; for(int i=0;i<n;i++) for(int j=i+1;j<n;j++,k++){ bool ok=k<r.covariances.size()&&k<r.correlation_coeffs.size()&&r.covariances[k].names==std::make_pair(lab[i],lab[j])&&r.correlation_coeffs[k].names==r.covariances[k].names; vp_check("pair-label",ok); if(!ok) return;
    vp_check_eq("pair-covariance",r.covariances[k].value,entry(keep[i].first,keep[i].second,keep[j].first,keep[j].second)); }
  vp_check("no-more-pairs",k==r.covariances.size()&&k==r.correlation_coeffs.size());
}
