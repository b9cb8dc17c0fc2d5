// Environment model of the solver: the real ceres headers are used (cost functions, autodiff, jets, options); Problem,
// Solve and Covariance are replaced (ceres_stub.cpp) by a recorder whose solver writes arbitrary values.
#pragma once
#include <ceres/ceres.h>
#include <functional>
#include <vector>
#include <string>
#include <map>
namespace vpc {
struct Block { double* p; int size; bool constant = false, bounded = false; std::vector<int> fixed; std::vector<double> init, fin; };
struct Res { const ceres::CostFunction* cost; bool loss; std::vector<int> blocks; std::vector<double> init, fin; };
struct Record { std::vector<Block> blocks; std::vector<Res> res; int residuals = 0; };
extern std::vector<Record> records;                        // one per Solve call
extern std::function<void(int solve,int block,const Block&,double*)> on_block;   // writes the "solution" of a free block
extern std::function<void(int solve,ceres::Solver::Summary&)> on_summary;        // termination type and costs
void evaluate(bool fin,int only=-1);                                   // evaluates every recorded residual at the initial (false) or written (true) values
extern std::function<double(const double* b1,int e1,const double* b2,int e2)> cov;   // entry of the covariance matrix
extern std::function<bool()> cov_compute_ok, cov_get_ok;
extern std::vector<std::vector<const double*>> cov_blocks; // blocks of every Covariance::Compute call
void reset();
}
