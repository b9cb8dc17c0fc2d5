// Standard deviations, correlations and named lists of an arbitrary symmetric NV x NV matrix.
#include "calib.h"
#include <rct_optimizations/covariance_analysis.h>
#include <limits>
void vp_main(){
  Eigen::MatrixXd C(NV,NV); double c[NV][NV],s[NV],d[NV]; std::vector<std::string> names;
  for(int i=0;i<NV;i++){ names.push_back(S("p",i)); for(int j=0;j<NV;j++){ c[i][j]=j<i?c[j][i]:vp_real(S("c",i,j).c_str()); C(i,j)=c[i][j]; } }
  CovarianceResult r=computeCovarianceResults(C,names); vp_reach("computed");
  for(int i=0;i<NV;i++){ s[i]=std::sqrt(std::fabs(c[i][i])); d[i]=s[i]; if(s[i]<std::numeric_limits<double>::epsilon()) d[i]=1; }
  bool shape=r.covariance_matrix.rows()==NV&&r.covariance_matrix.cols()==NV&&r.correlation_matrix.rows()==NV&&r.correlation_matrix.cols()==NV; vp_check("shape",shape); if(!shape) return;
  for(int i=0;i<NV;i++) for(int j=0;j<NV;j++){ vp_check_eq("matrix",r.covariance_matrix(i,j),c[i][j]);
    if(i==j) vp_check_eq("stdev",r.correlation_matrix(i,i),s[i]); else vp_check_eq("correlation",r.correlation_matrix(i,j),c[i][j]/(d[i]*d[j])); }
  auto lists=[&](const char* n,const std::vector<NamedParam>& l,bool corr){ std::vector<int> seen(NV*NV,0);
    vp_check((std::string(n)+"-count").c_str(),(int)l.size()==NV*(NV-1)/2);
    for(auto&x:l) for(int i=0;i<NV;i++) for(int j=0;j<NV;j++) if(x.names.first==names[i]&&x.names.second==names[j]){ vp_check((std::string(n)+"-pair-once").c_str(),i!=j&&!seen[i*NV+j]&&!seen[j*NV+i]); seen[i*NV+j]=1;
      if(i!=j) vp_check_eq(n,x.value,corr?c[i][j]/(d[i]*d[j]):c[i][j]); }
    int t=0; for(int k:seen) t+=k; vp_check((std::string(n)+"-named").c_str(),t==NV*(NV-1)/2); };
  lists("covariance-list",r.covariances,false); lists("correlation-list",r.correlation_coeffs,true);
  vp_check("stdev-count",(int)r.standard_deviations.size()==NV); std::vector<int> seen(NV,0);
  for(auto&x:r.standard_deviations) for(int i=0;i<NV;i++) if(x.names.first==names[i]){ vp_check("stdev-once",!seen[i]); seen[i]=1; vp_check_eq("stdev-list",x.value,s[i]); }
  for(int k:seen) vp_check("stdev-named",k==1);
#if NV==2
  int a=vp_concrete(vp_int("rows",1,3)),b=vp_concrete(vp_int("cols",1,3)); bool thrown=false; try { computeCorrelationsFromCovariance(Eigen::MatrixXd::Ones(a,b)); } catch(const CovarianceException&){ thrown=true; }
  vp_check("non-square-rejected",thrown==(a!=b));
#endif
}
