// Exact symmetry operations: integer matrices, translations in 24ths (modulo the lattice)
#pragma once
#include <array>
#include <vector>
#include <string>
#include <algorithm>
#include <cmath>
#include <set>
#include "vf.hpp"
namespace ex {
typedef std::array<int,9> Mat;
typedef std::array<int,3> Vec;
static const int Q=24;
inline int md(int a){ a%=Q; return a<0?a+Q:a; }
inline Mat mul(const Mat& a, const Mat& b){ Mat c{}; for(int i=0;i<3;++i) for(int j=0;j<3;++j) for(int k=0;k<3;++k) c[i*3+j]+=a[i*3+k]*b[k*3+j]; return c; }
inline Vec mul(const Mat& a, const Vec& b){ Vec c{}; for(int i=0;i<3;++i) for(int k=0;k<3;++k) c[i]+=a[i*3+k]*b[k]; return c; }
inline Vec mulT(const Mat& a, const Vec& b){ Vec c{}; for(int i=0;i<3;++i) for(int k=0;k<3;++k) c[i]+=a[k*3+i]*b[k]; return c; }
inline int det(const Mat& a){ return a[0]*(a[4]*a[8]-a[5]*a[7])-a[1]*(a[3]*a[8]-a[5]*a[6])+a[2]*(a[3]*a[7]-a[4]*a[6]); }
inline int trace(const Mat& a){ return a[0]+a[4]+a[8]; }
inline Mat adj(const Mat& a){ return Mat{a[4]*a[8]-a[5]*a[7], a[2]*a[7]-a[1]*a[8], a[1]*a[5]-a[2]*a[4], a[5]*a[6]-a[3]*a[8], a[0]*a[8]-a[2]*a[6], a[2]*a[3]-a[0]*a[5], a[3]*a[7]-a[4]*a[6], a[1]*a[6]-a[0]*a[7], a[0]*a[4]-a[1]*a[3]}; }
inline Mat inv(const Mat& a){ int d=det(a); Mat c=adj(a); for(auto& x:c) x*=d; return c; }   // unimodular only
inline Mat neg(Mat a){ for(auto& x:a) x=-x; return a; }
inline const Mat& one(){ static const Mat e{1,0,0,0,1,0,0,0,1}; return e; }
inline std::string str(const Mat& m){ return vf::vec(m); }
struct Op { Mat W; Vec t; bool operator<(const Op& o) const { return W<o.W || (W==o.W && t<o.t); } bool operator==(const Op& o) const { return W==o.W && t==o.t; } };
inline Op ident(){ return Op{one(),{0,0,0}}; }
inline Op norm(Op a){ for(auto& x:a.t) x=md(x); return a; }
inline Op mul(const Op& a, const Op& b){ Vec v=mul(a.W,b.t); for(int i=0;i<3;++i) v[i]+=a.t[i]; return norm(Op{mul(a.W,b.W),v}); }
inline Op inv(const Op& a){ Mat w=inv(a.W); Vec v=mul(w,a.t); for(auto& x:v) x=-x; return norm(Op{w,v}); }
inline std::string str(const Op& o){ return "{"+vf::vec(o.W)+"|"+vf::vec(o.t)+"/24}"; }
//! closure of a set of matrices / operations; empty when larger than lim
template<class T> std::vector<T> closure(const std::vector<T>& g, const T& e, size_t lim){ std::set<T> s{e}; std::vector<T> l{e}; for(size_t i=0;i<l.size();++i) for(auto& x:g){ T y=mul(x,l[i]); if(s.insert(y).second){ l.push_back(y); if(l.size()>lim) return {}; } } return l; }
inline std::vector<Mat> group(const std::vector<Mat>& g, size_t lim=48){ return closure(g,one(),lim); }
inline std::vector<Op> group(const std::vector<Op>& g, size_t lim=400){ return closure(g,ident(),lim); }
//! smallest n with a^n = identity (0: none up to lim)
template<class T> int order(const T& a, const T& e, int lim=48){ T x=a; for(int n=1;n<=lim;++n){ if(x==e) return n; x=mul(a,x); } return 0; }
inline int order(const Mat& a){ return order(a,one()); }
inline int order(const Op& a){ return order(a,ident()); }
//! the two maximal holohedries
inline std::vector<Mat> oh(){ return group({Mat{0,-1,0,1,0,0,0,0,1},Mat{0,0,1,1,0,0,0,1,0},Mat{-1,0,0,0,-1,0,0,0,-1}}); }
inline std::vector<Mat> d6h(){ return group({Mat{1,-1,0,1,0,0,0,0,1},Mat{0,1,0,1,0,0,0,0,-1},Mat{-1,0,0,0,-1,0,0,0,-1}}); }
//! generators (up to three) of every class of point group: one set per crystallographic point group in standard settings
inline std::vector<std::pair<std::string,std::vector<Mat>>> pointgroups(){
  Mat I=neg(one()), z2{-1,0,0,0,-1,0,0,0,1}, x2{1,0,0,0,-1,0,0,0,-1}, y2{-1,0,0,0,1,0,0,0,-1}, z4{0,-1,0,1,0,0,0,0,1}, d3{0,0,1,1,0,0,0,1,0}, ab2{0,1,0,1,0,0,0,0,-1}, hz3{0,-1,0,1,-1,0,0,0,1}, hz6{1,-1,0,1,0,0,0,0,1}, h2{0,1,0,1,0,0,0,0,-1}, g2{0,-1,0,-1,0,0,0,0,-1};
  return {{"1",{}},{"-1",{I}},{"2",{y2}},{"m",{neg(y2)}},{"2/m",{y2,I}},{"222",{z2,x2}},{"mm2",{z2,neg(x2)}},{"mmm",{z2,x2,I}},{"4",{z4}},{"-4",{neg(z4)}},{"4/m",{z4,I}},{"422",{z4,x2}},{"4mm",{z4,neg(x2)}},{"-42m",{neg(z4),x2}},{"-4m2",{neg(z4),neg(x2)}},{"4/mmm",{z4,x2,I}},
   {"3",{hz3}},{"-3",{neg(hz3)}},{"321",{hz3,h2}},{"312",{hz3,g2}},{"3m1",{hz3,neg(h2)}},{"31m",{hz3,neg(g2)}},{"-3m1",{hz3,h2,I}},{"-31m",{hz3,g2,I}},{"3(111)",{d3}},{"32(111)",{d3,neg(ab2)==ab2?ab2:Mat{0,-1,0,-1,0,0,0,0,-1}}},{"6",{hz6}},{"-6",{neg(hz6)}},{"6/m",{hz6,I}},{"622",{hz6,h2}},{"6mm",{hz6,neg(h2)}},{"-6m2",{neg(hz6),h2}},{"-62m",{neg(hz6),g2}},{"6/mmm",{hz6,h2,I}},
   {"23",{z2,d3}},{"m-3",{z2,d3,I}},{"432",{z4,d3}},{"-43m",{neg(z4),d3}},{"m-3m",{z4,d3,I}}};
}
} // namespace ex
#ifdef VF_SPGDATA
#include "spgdata.hpp"
namespace ex {
//! the operations of a tabulated setting (translations in 24ths)
inline std::vector<Op> spacegroup(int hall){ std::vector<Op> l; int n=spgdata::count_first[hall][0], f=spgdata::count_first[hall][1]; for(int i=0;i<n;++i){ int c=spgdata::operation[f+i]; Op o; int r=c%19683, t=c/19683; for(int k=8;k>=0;--k){ o.W[k]=r%3-1; r/=3; } for(int k=2;k>=0;--k){ o.t[k]=2*(t%12); t/=12; } l.push_back(o); } return l; }
}
#endif
