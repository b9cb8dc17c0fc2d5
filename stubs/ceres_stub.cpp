#include "ceres_stub.h"
#include "vp.h"
#ifdef VP_OLD_CERES
#include <ceres/local_parameterization.h>
#endif
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <algorithm>
namespace vpc {
std::vector<Record> records;
std::function<void(int,int,const Block&,double*)> on_block;
std::function<void(int,ceres::Solver::Summary&)> on_summary;
std::function<double(const double*,int,const double*,int)> cov;
std::function<bool()> cov_compute_ok, cov_get_ok;
std::vector<std::vector<const double*>> cov_blocks;
void reset(){ records.clear(); on_block=nullptr; on_summary=nullptr; cov=nullptr; cov_compute_ok=nullptr; cov_get_ok=nullptr; cov_blocks.clear(); }
void evaluate(bool fin,int only){ for(size_t k=0;k<records.size();k++) if(only<0||(int)k==only) for(auto&r:records[k].res){ auto&R=records[k]; std::vector<double> v(r.cost->num_residuals()); std::vector<const double*> p;
  for(int b:r.blocks) p.push_back(fin?R.blocks[b].fin.data():R.blocks[b].init.data());
  if(!r.cost->Evaluate(p.data(),v.data(),nullptr)) vp_check("cost functor evaluates",false); (fin?r.fin:r.init)=v; } }
[[noreturn]] static void fatal(const char* m){ fprintf(stderr,"ceres: %s\n",m); abort(); }
}
namespace ceres { namespace internal {
class ResidualBlock { public: int idx; };
class ProblemImpl {
public:
  std::vector<vpc::Block> blocks; struct R{ CostFunction* c; LossFunction* l; std::vector<double*> p; ResidualBlock id; };
  std::vector<std::unique_ptr<R>> res;
  int find(const double* p) const { for(size_t i=0;i<blocks.size();i++) if(blocks[i].p==p) return (int)i; return -1; }
  int need(const double* p) const { int i=find(p); if(i<0) vpc::fatal("parameter block not found in the problem"); return i; }
  int add(double* p,int size){ int i=find(p); if(i>=0){ if(blocks[i].size!=size) vpc::fatal("parameter block size mismatch"); return i; } 
    for(auto&b:blocks) if(p<b.p+b.size&&b.p<p+size) vpc::fatal("aliased parameter blocks");
    vpc::Block b; b.p=p; b.size=size; blocks.push_back(b); return (int)blocks.size()-1; }
};
class CovarianceImpl { public: ProblemImpl* p=nullptr; bool ok=false; };
}
using internal::ProblemImpl;
Problem::Problem():impl_(new ProblemImpl){}
Problem::Problem(const Options&):impl_(new ProblemImpl){}
Problem::Problem(Problem&&)=default;
Problem& Problem::operator=(Problem&&)=default;
Problem::~Problem(){}
ResidualBlockId Problem::AddResidualBlock(CostFunction* c,LossFunction* l,double* const* const p,int n){
  auto r=std::make_unique<ProblemImpl::R>(); r->c=c; r->l=l; r->p.assign(p,p+n);
  if((int)c->parameter_block_sizes().size()!=n) vpc::fatal("number of blocks given differs from the number the cost function expects");
  for(int i=0;i<n;i++) for(int j=0;j<i;j++) if(p[i]==p[j]) vpc::fatal("duplicate parameter blocks in a residual");
  for(int i=0;i<n;i++) impl_->add(p[i],c->parameter_block_sizes()[i]);
  r->id.idx=(int)impl_->res.size(); impl_->res.push_back(std::move(r)); return &impl_->res.back()->id; }
ResidualBlockId Problem::AddResidualBlock(CostFunction* c,LossFunction* l,const std::vector<double*>& p){ return AddResidualBlock(c,l,p.data(),(int)p.size()); }
void Problem::AddParameterBlock(double* v,int s){ impl_->add(v,s); }
void Problem::SetParameterBlockConstant(const double* v){ impl_->blocks[impl_->need(v)].constant=true; }
void Problem::SetParameterBlockVariable(double* v){ impl_->blocks[impl_->need(v)].constant=false; }
bool Problem::IsParameterBlockConstant(const double* v) const { return impl_->blocks[impl_->need(v)].constant; }
int Problem::NumParameterBlocks() const { return (int)impl_->blocks.size(); }
int Problem::NumParameters() const { int n=0; for(auto&b:impl_->blocks) n+=b.size; return n; }
int Problem::NumResidualBlocks() const { return (int)impl_->res.size(); }
int Problem::NumResiduals() const { int n=0; for(auto&r:impl_->res) n+=r->c->num_residuals(); return n; }
int Problem::ParameterBlockSize(const double* v) const { return impl_->blocks[impl_->need(v)].size; }
int Problem::ParameterBlockTangentSize(const double* v) const { auto&b=impl_->blocks[impl_->need(v)]; return b.size-(int)b.fixed.size(); }
bool Problem::HasParameterBlock(const double* v) const { return impl_->find(v)>=0; }
void Problem::GetParameterBlocks(std::vector<double*>* o) const { o->clear(); for(auto&b:impl_->blocks) o->push_back(b.p); }
void Problem::GetResidualBlocks(std::vector<ResidualBlockId>* o) const { o->clear(); for(auto&r:impl_->res) o->push_back(&r->id); }
void Problem::GetParameterBlocksForResidualBlock(const ResidualBlockId r,std::vector<double*>* o) const { *o=impl_->res[r->idx]->p; }
ProblemImpl* Problem::mutable_impl(){ return impl_.get(); }
#ifdef VP_OLD_CERES
bool Problem::VpUnused__(){ return false; }
void Problem::SetParameterization(double* v,LocalParameterization* p){ auto&b=impl_->blocks[impl_->need(v)]; auto*s=dynamic_cast<SubsetParameterization*>(p); b.fixed=s?s->vp_fixed:std::vector<int>(); }
#endif
void Problem::SetParameterLowerBound(double* v,int,double){ impl_->blocks[impl_->need(v)].bounded=true; }
void Problem::SetParameterUpperBound(double* v,int,double){ impl_->blocks[impl_->need(v)].bounded=true; }
void Problem::SetManifold(double* v,Manifold* m){ auto&b=impl_->blocks[impl_->need(v)]; b.fixed.clear(); if(!m) return;
  // constant coordinates are those no tangent direction moves
  int a=m->AmbientSize(),t=m->TangentSize(); std::vector<double> x(a,0.0),J(a*t,0.0); m->PlusJacobian(x.data(),J.data());
  for(int i=0;i<a;i++){ bool z=true; for(int j=0;j<t;j++) if(J[i*t+j]!=0) z=false; if(z) b.fixed.push_back(i); } }

void Solve(const Solver::Options&,Problem* pr,Solver::Summary* s){
  ProblemImpl& P=*pr->mutable_impl(); int k=(int)vpc::records.size();
  vpc::Record R; R.blocks=P.blocks; for(auto&b:R.blocks) b.init.assign(b.p,b.p+b.size);
  for(auto&r:P.res){ vpc::Res q; q.cost=r->c; q.loss=r->l!=nullptr&&dynamic_cast<TrivialLoss*>(r->l)==nullptr; for(double* p:r->p) q.blocks.push_back(P.find(p)); R.res.push_back(q); R.residuals+=r->c->num_residuals(); }
  vpc::records.push_back(R);
  for(size_t i=0;i<P.blocks.size();i++){ auto&b=P.blocks[i];
    if(!b.constant&&vpc::on_block){ std::vector<double> v(b.p,b.p+b.size); vpc::on_block(k,(int)i,b,v.data());
      for(int j=0;j<b.size;j++) if(std::find(b.fixed.begin(),b.fixed.end(),j)==b.fixed.end()) b.p[j]=v[j]; }
    vpc::records[k].blocks[i].fin.assign(b.p,b.p+b.size); }
  s->termination_type=CONVERGENCE; s->initial_cost=1; s->final_cost=0.5; s->num_residuals=R.residuals; s->num_residual_blocks=(int)R.res.size();
  s->num_residuals_reduced=R.residuals; s->num_residual_blocks_reduced=(int)R.res.size(); s->fixed_cost=0;
  if(vpc::on_summary) vpc::on_summary(k,*s);
}
Covariance::Covariance(const Options&):impl_(new internal::CovarianceImpl){}
Covariance::~Covariance(){}
bool Covariance::Compute(const std::vector<const double*>& b,Problem* p){
  impl_->p=p->mutable_impl(); vpc::cov_blocks.push_back(b); for(auto*x:b) impl_->p->need(x);
  for(size_t i=0;i<b.size();i++) for(size_t j=0;j<i;j++) if(b[i]==b[j]) vpc::fatal("duplicate blocks in covariance request");
  impl_->ok = !vpc::cov_compute_ok || vpc::cov_compute_ok(); return impl_->ok; }
bool Covariance::Compute(const std::vector<std::pair<const double*,const double*>>& b,Problem* p){
  impl_->p=p->mutable_impl(); vpc::cov_blocks.emplace_back(); for(auto&x:b){ impl_->p->need(x.first); impl_->p->need(x.second); vpc::cov_blocks.back().push_back(x.first); }
  impl_->ok = !vpc::cov_compute_ok || vpc::cov_compute_ok(); return impl_->ok; }
static double entry(ProblemImpl& P,const double* a,int i,const double* b,int j){
  auto&A=P.blocks[P.need(a)]; auto&B=P.blocks[P.need(b)]; 
  if(A.constant||B.constant) return 0;
  if(vpc::cov) return vpc::cov(a,i,b,j);
  return a==b&&i==j?1.0:0.0; }
bool Covariance::GetCovarianceBlock(const double* a,const double* b,double* o) const { if(!impl_->ok) vpc::fatal("covariance not computed");
  if(vpc::cov_get_ok&&!vpc::cov_get_ok()) return false; ProblemImpl&P=*impl_->p; int n=P.blocks[P.need(a)].size,m=P.blocks[P.need(b)].size;
  for(int i=0;i<n;i++) for(int j=0;j<m;j++) o[i*m+j]=entry(P,a,i,b,j); return true; }
bool Covariance::GetCovarianceMatrix(const std::vector<const double*>& b,double* o) const { if(!impl_->ok) vpc::fatal("covariance not computed");
  if(vpc::cov_get_ok&&!vpc::cov_get_ok()) return false; ProblemImpl&P=*impl_->p;
  std::vector<std::pair<const double*,int>> idx; for(auto*x:b) for(int i=0;i<P.blocks[P.need(x)].size;i++) idx.push_back({x,i});
  size_t n=idx.size(); for(size_t i=0;i<n;i++) for(size_t j=0;j<n;j++) o[i*n+j]=entry(P,idx[i].first,idx[i].second,idx[j].first,idx[j].second); return true; }
bool Covariance::GetCovarianceMatrixInTangentSpace(const std::vector<const double*>& b,double* o) const { if(!impl_->ok) vpc::fatal("covariance not computed");
  if(vpc::cov_get_ok&&!vpc::cov_get_ok()) return false; ProblemImpl&P=*impl_->p;
  std::vector<std::pair<const double*,int>> idx; for(auto*x:b){ auto&B=P.blocks[P.need(x)]; for(int i=0;i<B.size;i++) if(std::find(B.fixed.begin(),B.fixed.end(),i)==B.fixed.end()) idx.push_back({x,i}); }
  size_t n=idx.size(); for(size_t i=0;i<n;i++) for(size_t j=0;j<n;j++) o[i*n+j]=entry(P,idx[i].first,idx[i].second,idx[j].first,idx[j].second); return true; }
}
