// plain 3-vector and 3x3 matrix arithmetic and a set of unit cells, independent of brille
#pragma once
#include "vf.hpp"
#include <array>
#include <cmath>
#include <algorithm>
namespace lat {
using D=double; using V=std::array<D,3>; using M=std::array<D,9>;
static constexpr D PI=3.14159265358979323846264338327950288, TWO_PI=2*PI;
inline V mv(const M& m, const V& v){ V r{}; for(int i=0;i<3;++i) for(int j=0;j<3;++j) r[i]+=m[3*i+j]*v[j]; return r; }
inline M mm(const M& a, const M& b){ M r{}; for(int i=0;i<3;++i) for(int j=0;j<3;++j) for(int k=0;k<3;++k) r[3*i+j]+=a[3*i+k]*b[3*k+j]; return r; }
inline M tr(const M& a){ M r; for(int i=0;i<3;++i) for(int j=0;j<3;++j) r[3*i+j]=a[3*j+i]; return r; }
inline D dot(const V& a, const V& b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
inline V cross(const V& a, const V& b){ return {a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]}; }
inline D norm(const V& a){ return std::sqrt(dot(a,a)); }
inline V add(const V& a, const V& b){ return {a[0]+b[0],a[1]+b[1],a[2]+b[2]}; }
inline V sub(const V& a, const V& b){ return {a[0]-b[0],a[1]-b[1],a[2]-b[2]}; }
inline V mul(const V& a, D s){ return {a[0]*s,a[1]*s,a[2]*s}; }
inline V col(const M& m, int i){ return {m[i],m[3+i],m[6+i]}; }
inline M cols(const V& a, const V& b, const V& c){ return {a[0],b[0],c[0],a[1],b[1],c[1],a[2],b[2],c[2]}; }
inline D det(const M& m){ return dot(col(m,0),cross(col(m,1),col(m,2))); }
inline M inv(const M& m){ D d=det(m); V a=col(m,0),b=col(m,1),c=col(m,2); V x=mul(cross(b,c),1/d),y=mul(cross(c,a),1/d),z=mul(cross(a,b),1/d); return tr(cols(x,y,z)); }
inline M metric(const M& m){ return mm(tr(m),m); }
inline bool near(D a, D b, D tol=1e-9, D scale=0){ return std::isfinite(a)&&std::isfinite(b)&&std::abs(a-b)<=tol*std::max({std::abs(a),std::abs(b),scale,D(1e-300)}); }
template<class A, class B> bool near_all(const A& a, const B& b, D tol=1e-9){ if(a.size()!=b.size()) return false; D s=0; for(auto x:b) s=std::max(s,std::abs(D(x))); if(s==0) s=1e-300; for(size_t i=0;i<a.size();++i) if(!near(a[i],b[i],tol,s)) return false; return true; }
template<class A> std::string show(const A& a){ std::string s="["; for(auto x:a) s+=vf::fmt(s.size()>1?" %.12g":"%.12g",D(x)); return s+"]"; }
//! columns a, b, c of a right-handed cell with a along x and b in the xy plane; angles in degrees
inline M cell(const V& l, const V& a){ auto c=[](D x){ return x==90?0:x==60?0.5:x==120?-0.5:std::cos(x*PI/180); }; D ca=c(a[0]),cb=c(a[1]),cg=c(a[2]),sg=std::sqrt(1-cg*cg); D v2=1-ca*ca-cb*cb-cg*cg+2*ca*cb*cg; D v=std::sqrt(v2); return cols({l[0],0,0},{l[1]*cg,l[1]*sg,0},{l[2]*cb,l[2]*(ca-cb*cg)/sg,l[2]*v/sg}); }
inline D unit_volume2(const V& a){ D ca=std::cos(a[0]*PI/180),cb=std::cos(a[1]*PI/180),cg=std::cos(a[2]*PI/180); return 1-ca*ca-cb*cb-cg*cg+2*ca*cb*cg; }
//! dual columns, a_i . b_j = 2 pi delta_ij
inline M dual(const M& m){ M r=tr(inv(m)); for(auto& x:r) x*=TWO_PI; return r; }
inline M rotation(const V& axis, D deg){ D n=norm(axis), t=deg*PI/180, c=std::cos(t), s=std::sin(t), x=axis[0]/n,y=axis[1]/n,z=axis[2]/n; return {c+x*x*(1-c),x*y*(1-c)-z*s,x*z*(1-c)+y*s, y*x*(1-c)+z*s,c+y*y*(1-c),y*z*(1-c)-x*s, z*x*(1-c)-y*s,z*y*(1-c)+x*s,c+z*z*(1-c)}; }
//! the 24 rotations of a cube
inline std::vector<M> cube_rotations(){ std::vector<M> r; int p[3]={0,1,2}; do { for(int s=0;s<8;++s){ M m{}; for(int i=0;i<3;++i) m[3*i+p[i]]=(s>>i&1)?-1:1; if(det(m)>0) r.push_back(m); } } while(std::next_permutation(p,p+3)); return r; }
struct Cell { const char* name; V l, a; };
//! one cell per crystal family and a few awkward ones
inline const std::vector<Cell>& cells(){ static const std::vector<Cell> c{ {"cubic",{4,4,4},{90,90,90}}, {"tetragonal",{3,3,5},{90,90,90}}, {"orthorhombic",{3,4,5},{90,90,90}}, {"hexagonal",{3,3,5},{90,90,120}}, {"rhombohedral",{4,4,4},{70,70,70}}, {"monoclinic",{3,4,5},{90,105,90}}, {"triclinic",{3,4,5},{75,105,80}}, {"oblate",{6,6.5,2},{95,88,110}}, {"obtuse",{5,3,4},{100,110,115}}, {"acute",{2,3,2.5},{50,60,65}} }; return c; }
}
