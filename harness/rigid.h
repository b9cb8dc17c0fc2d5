// Rigid transforms with quarter-turn rotations: exact in real arithmetic.
#pragma once
#include "vp.h"
#include <Eigen/Geometry>
#include <string>
namespace rg {
typedef Eigen::Isometry3d Iso; typedef Eigen::Vector3d V3;
static const int R[6][3][3]={{{1,0,0},{0,1,0},{0,0,1}},{{0,0,1},{1,0,0},{0,1,0}},{{0,-1,0},{1,0,0},{0,0,1}},{{0,1,0},{0,0,-1},{-1,0,0}},{{1,0,0},{0,-1,0},{0,0,-1}},{{-1,0,0},{0,0,1},{0,1,0}}};
inline std::string S(const std::string& a,int i){ return a+std::to_string(i); }
inline V3 vec(const std::string& n){ V3 v; for(int i=0;i<3;i++) v(i)=vp_real(S(n,i).c_str()); return v; }
inline Iso rot(int k){ Iso t=Iso::Identity(); for(int i=0;i<3;i++) for(int j=0;j<3;j++) t(i,j)=R[k][i][j]; return t; }
inline Iso pose(const std::string& n,int k){ Iso t=rot(k); for(int i=0;i<3;i++) t(i,3)=vp_real(S(n,i).c_str()); return t; }
inline Iso inv(const Iso& a){ Iso r=Iso::Identity(); for(int i=0;i<3;i++){ double s=0; for(int j=0;j<3;j++){ r(i,j)=a(j,i); s=s-a(j,i)*a(j,3); } r(i,3)=s; } return r; }
inline Iso mul(const Iso& a,const Iso& b){ Iso r=Iso::Identity(); for(int i=0;i<3;i++) for(int j=0;j<4;j++){ double s=j==3?a(i,3):0.0; for(int k=0;k<3;k++) s=s+a(i,k)*b(k,j); r(i,j)=s; } return r; }
inline double dot(const V3& a,const V3& b){ double s=a(0)*b(0); s=s+a(1)*b(1); return s+a(2)*b(2); }
// angle between two quarter-turn rotations
inline double angle(int a,int b){ double t=0; for(int i=0;i<3;i++) for(int j=0;j<3;j++) t+=R[a][i][j]*R[b][i][j]; return t>=3?0.0:t<=-1?M_PI:t==1?M_PI/2:2*M_PI/3; }
inline void same(const char* n,const Iso& a,const Iso& b){ for(int i=0;i<3;i++) for(int j=0;j<4;j++) vp_check_eq(n,a(i,j),b(i,j)); }
inline void near_(const char* n,double a,double b){ vp_check_le(n,a,b+1e-7); vp_check_le(n,b,a+1e-7); }
}
