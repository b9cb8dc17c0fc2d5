// Environment model of the removed solver header: what a subset parameterization keeps constant.  As the real one does,
// it ends the process for indices which are negative, too large or given twice.
#pragma once
#include <vector>
#include <cstdlib>
namespace ceres {
class LocalParameterization { public: virtual ~LocalParameterization(){} };
class IdentityParameterization : public LocalParameterization { public: explicit IdentityParameterization(int){} };
class SubsetParameterization : public LocalParameterization {
public:
  SubsetParameterization(int size,const std::vector<int>& constant):vp_fixed(constant),vp_size(size){
    for(size_t i=0;i<constant.size();i++){ if(constant[i]<0) abort(); if(constant[i]>=size) abort(); for(size_t j=0;j<i;j++) if(constant[j]==constant[i]) abort(); } }
  std::vector<int> vp_fixed; int vp_size;
};
}
