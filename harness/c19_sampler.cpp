// Correspondence samplers: GRID: any grid; otherwise: any random number generator output.
#include <random>
#include "vp.h"
#ifndef GRID
#ifdef VP_SYM
static int draws=0;
// the generator is an environment model: any 32-bit numbers (after DRAWS draws the middle one, so that rejection ends)
namespace std { template<> inline mt19937::result_type mt19937::operator()(){ if(draws>=DRAWS) return 0x7fffffffu; return (unsigned)vp_int(("r"+std::to_string(draws++)).c_str(),-2147483647-1,2147483647); } }
#endif
#endif
#include <rct_optimizations/validation/homography_validation.h>
#include <set>
using namespace rct_optimizations;
void vp_main(){
#ifdef GRID
  int r=vp_int("rows",2,GRID),c=vp_int("cols",2,GRID),t=vp_concrete(vp_int("stride",1,4)); bool thrown=false; std::vector<std::size_t> i;
  try { i=GridCorrespondenceSampler((std::size_t)r,(std::size_t)c,(std::size_t)t).getSampleCorrespondenceIndices(); } catch(const std::exception&){ thrown=true; }
  bool few=r*c<8; vp_check("few-elements-rejected",thrown==few); if(thrown) return; vp_reach("grid"); vp_check("four-samples",i.size()==4); if(i.size()!=4) return;
  std::size_t n=(std::size_t)(r*c*t),want[4]={0,(std::size_t)((c-1)*t),(std::size_t)((r-1)*c*t),(std::size_t)((r*c-1)*t)};
  for(int a=0;a<4;a++) vp_check("inside",i[a]<n);
  for(int w=0;w<4;w++){ bool hit=false; for(int a=0;a<4;a++) if(i[a]==want[w]) hit=true; vp_check("corner-sampled",hit); }
#else
  int n=vp_concrete(vp_int("correspondences",3,MAXN)),k=vp_concrete(vp_int("samples",3,5)); bool thrown=false; std::vector<std::size_t> i;
  try { i=RandomCorrespondenceSampler(n,k,7).getSampleCorrespondenceIndices(); } catch(const std::exception&){ thrown=true; }
  vp_check("sizes-checked",thrown==(k<4||k>n)); if(thrown) return; vp_reach("random"); vp_check("as-many-as-requested",(int)i.size()==k); for(auto x:i) vp_check("inside",x<(std::size_t)n);
#endif
}
