// Coefficients reported as outside a threshold.
#include "calib.h"
#include <rct_optimizations/covariance_types.h>
void vp_main(){
  CovarianceResult r; double v[NV]; for(int i=0;i<NV;i++){ v[i]=vp_real(S("v",i).c_str()); NamedParam p; p.names={S("p",i),S("q",i)}; p.value=v[i]; r.correlation_coeffs.push_back(p); }
  double t=vp_real("threshold"); auto o=r.getCorrelationCoeffOutsideThreshold(t); vp_reach("computed"); size_t n=0;
  for(int i=0;i<NV;i++){ bool in=std::fabs(v[i])>t; int k=0; for(auto&x:o) if(x.names.first==S("p",i)){ k++; vp_check("names-kept",x.names.second==S("q",i)); vp_check_eq("value-kept",x.value,v[i]); } vp_check("outside-exactly",k==(in?1:0)); if(in) n++; }
  vp_check("outside-count",o.size()==n);
  for(size_t i=1;i<o.size();i++) vp_check_le("descending",std::fabs(o[i].value),std::fabs(o[i-1].value));
}
