// data that transform: the physical transformation of scalars, vectors, matrices and of the displacements of atoms
#pragma once
#include "irbz.hpp"
#include "interpolator.hpp"
#include "phonon.hpp"
#include <complex>
#include <optional>
namespace turns {
using lat::V; using lat::M; using brille::ind_t; using brille::Motion; using brille::Symmetry; using brille::bArray;
typedef std::complex<double> C;
inline double num(size_t a, size_t b){ double x=std::fmod((a+1)*0.7548776662466927+(b+1)*0.5698402909980532+0.37*std::sin(double(a*31+b*17)),1.0); return x-0.5; }
template<class T> T value(size_t a, size_t b);
template<> inline double value<double>(size_t a, size_t b){ return num(a,b); }
template<> inline C value<C>(size_t a, size_t b){ return {num(a,b),num(b+7,a+3)}; }
template<class T> using Row=std::vector<T>;
template<class T> bArray<T> array(const std::vector<Row<T>>& r){ bArray<T> a(ind_t(r.size()),ind_t(r[0].size())); for(ind_t i=0;i<r.size();++i) for(ind_t j=0;j<r[0].size();++j) a.val(i,j)=r[i][j]; return a; }
template<class T> std::vector<Row<T>> rows(const bArray<T>& a){ std::vector<Row<T>> r(a.size(0)); for(ind_t i=0;i<a.size(0);++i) for(ind_t j=0;j<a.size(1);++j) r[i].push_back(a.val(i,j)); return r; }
struct Elements { ind_t s, v, m, b; ind_t span() const { return s+3*v+9*m; } };
//! W v and W m W^-1 with the Cartesian matrices of the physical rotation, in the components that P turns into Cartesian ones
template<class T> void vec(T* o, const T* i, const M& w){ for(int a=0;a<3;++a){ o[a]=T(0); for(int b=0;b<3;++b) o[a]+=w[3*a+b]*i[b]; } }
template<class T> void mat(T* o, const T* i, const M& w, const M& v){ for(int a=0;a<3;++a) for(int b=0;b<3;++b){ T x(0); for(int c=0;c<3;++c) for(int d=0;d<3;++d) x+=w[3*a+c]*i[3*c+d]*v[3*d+b]; o[3*a+b]=x; } }
template<class T> Row<T> turned(const Row<T>& x, const Elements& e, const M& w, double sign){ M v=lat::inv(w); Row<T> y(x); for(ind_t b=0;b<e.b;++b){ size_t o=b*e.span()+e.s; for(ind_t k=0;k<e.v;++k,o+=3){ vec(&y[o],&x[o],w); for(int j=0;j<3;++j) y[o+j]*=sign; } for(ind_t k=0;k<e.m;++k,o+=9) mat(&y[o],&x[o],w,v); } return y; }
template<class T> bool same(const Row<T>& a, const Row<T>& b, double tol=1e-9){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();++i) if(!(std::abs(a[i]-b[i])<=tol*(1+std::abs(a[i])))) return false; return true; }
struct Crystal { std::vector<V> r; std::vector<ind_t> type; };
inline V wrap(V x){ for(auto& a:x){ a-=std::floor(a); if(a>1-1e-9) a=0; } return x; }
inline V moveby(const Motion<int,double>& m, const V& x){ auto r=m.getr(); auto t=m.gett(); V y; for(int i=0;i<3;++i){ y[i]=t[i]; for(int j=0;j<3;++j) y[i]+=r[3*i+j]*x[j]; } return y; }
inline std::vector<V> orbit(const Symmetry& s, const V& x){ std::vector<V> o; for(size_t i=0;i<s.size();++i){ V y=wrap(moveby(s.getm(i),x)); bool seen=false; for(auto& z:o){ double d=0; for(int k=0;k<3;++k) d=std::max(d,std::abs(y[k]-z[k]-std::round(y[k]-z[k]))); seen|=d<1e-6; } if(!seen) o.push_back(y); } return o; }
inline Crystal crystal(const Symmetry& s, size_t limit, size_t skip, double shift){ static const std::vector<V> starts{{0,0,0},{.5,.5,.5},{.25,.25,.25},{0,0,.25},{.5,0,0},{0,.5,.25},{1/3.,2/3.,.25},{1/3.,2/3.,0},{.19,.19,.19},{.21,0,0},{0,0,.17},{.13,.27,.41},{.5,.1,0},{.125,.125,.125},{0,.23,.23}}; Crystal c; size_t k=0; for(auto& x:starts){ V y; for(int i=0;i<3;++i) y[i]=x[i]; auto o=orbit(s,y); if(c.r.size()+o.size()>limit) continue; bool clash=false; for(auto& a:o) for(auto& b:c.r){ double d=0; for(int j=0;j<3;++j) d=std::max(d,std::abs(a[j]-b[j]-std::round(a[j]-b[j]))); clash|=d<1e-3; } if(clash) continue; if(k++<skip) continue; /* in the cell or out of it */ for(size_t i=0;i<o.size();++i){ V z=o[i]; if(shift!=0) for(int j=0;j<3;++j) z[j]+=std::round(shift*num(i,j+c.r.size())); c.r.push_back(z); c.type.push_back(ind_t(k)); } } return c; }
//! eigenvectors and matrices of atoms after S, at the point of k: every atom carries its own to where it goes; false if S is no operation of the crystal
inline bool turn(const Row<C>& u, const Elements& e, const Crystal& c, bool cartesian, const M& A, const V& k, const brille::Motion<int,double>& S, Row<C>& w){ const size_t N=c.r.size(); auto Wi=S.getr(); M W; for(int j=0;j<9;++j) W[j]=Wi[j]; if(cartesian) W=lat::mm(A,lat::mm(W,lat::inv(A))); M Wv=lat::inv(W); std::vector<size_t> to(N); std::vector<C> ph(N); for(size_t a=0;a<N;++a){ V z=moveby(S,c.r[a]); bool found=false; for(size_t b=0;b<N&&!found;++b){ V T; double d=0; for(int j=0;j<3;++j){ T[j]=std::round(z[j]-c.r[b][j]); d=std::max(d,std::abs(z[j]-c.r[b][j]-T[j])); } if(d<1e-6){ found=true; to[a]=b; V Q{}; M Wf; for(int j=0;j<9;++j) Wf[j]=Wi[j]; M Wt=lat::tr(lat::inv(Wf)); Q=lat::mv(Wt,k); ph[a]=std::exp(C(0,-lat::TWO_PI*lat::dot(Q,T))); } } if(!found) return false; }
    w=u; for(ind_t b=0;b<e.b;++b){ size_t o=b*e.span()+e.s; if(e.v){ for(size_t a=0;a<N;++a){ C z[3]; vec(z,&u[o+3*a],W); for(int j=0;j<3;++j) w[o+3*to[a]+j]=ph[a]*z[j]; } o+=3*N; } if(e.m) for(size_t a=0;a<N;++a) for(size_t d=0;d<N;++d){ C z[9]; mat(z,&u[o+9*(a*N+d)],W,Wv); for(int j=0;j<9;++j) w[o+9*(to[a]*N+to[d])+j]=ph[a]*std::conj(ph[d])*z[j]; } } return true; }
}
