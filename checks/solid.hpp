// convex polyhedra as intersections of half-spaces: an independent oracle for brille's polyhedra (plain doubles; the
// planes used have small integer coefficients so that distinct corners are far apart)
#pragma once
#include "lat.hpp"
namespace solid {
using lat::V; using lat::M;
struct Plane { V n; double d; };                 //!< n.x <= d is inside
struct Body { std::vector<V> v; std::vector<std::vector<int>> f; std::vector<Plane> p; double volume=0; V centroid{}; };
static constexpr double TOL=1e-8;
inline bool inside(const std::vector<Plane>& ps, const V& x, double tol=TOL){ for(auto& p:ps) if(lat::dot(p.n,x)>p.d+tol*lat::norm(p.n)) return false; return true; }
//! positive outside, negative inside, in units of length
inline double beyond(const std::vector<Plane>& ps, const V& x){ double w=-1e300; for(auto& p:ps) w=std::max(w,(lat::dot(p.n,x)-p.d)/lat::norm(p.n)); return w; }
inline Body body(const std::vector<Plane>& ps){ Body b; size_t n=ps.size();
  for(size_t i=0;i<n;++i) for(size_t j=0;j<i;++j) for(size_t k=0;k<j;++k){ M m{ps[i].n[0],ps[i].n[1],ps[i].n[2],ps[j].n[0],ps[j].n[1],ps[j].n[2],ps[k].n[0],ps[k].n[1],ps[k].n[2]}; if(std::abs(lat::det(m))<1e-9) continue; V x=lat::mv(lat::inv(m),{ps[i].d,ps[j].d,ps[k].d}); if(!inside(ps,x)) continue; bool dup=false; for(auto& y:b.v) dup|=lat::norm(lat::sub(x,y))<1e-6; if(!dup) b.v.push_back(x); }
  if(b.v.size()<4) return b; V c{}; for(auto& x:b.v) c=lat::add(c,lat::mul(x,1./b.v.size()));
  std::vector<V> seen; for(auto& p:ps){ std::vector<int> f; for(size_t i=0;i<b.v.size();++i) if(std::abs(lat::dot(p.n,b.v[i])-p.d)<TOL*10) f.push_back(int(i)); if(f.size()<3) continue; V u=lat::mul(p.n,1/lat::norm(p.n)); bool dup=false; for(auto& s:seen) dup|=lat::norm(lat::sub(s,u))<1e-9; if(dup) continue; V m{}; for(int i:f) m=lat::add(m,lat::mul(b.v[i],1./f.size())); V e=lat::sub(b.v[f[0]],m); V g=lat::cross(u,e); std::sort(f.begin(),f.end(),[&](int i,int j){ auto ang=[&](int k){ V r=lat::sub(b.v[k],m); return std::atan2(lat::dot(r,g)/lat::norm(g),lat::dot(r,e)/lat::norm(e)); }; return ang(i)<ang(j); });
    double area=0; for(size_t i=1;i+1<f.size();++i) area+=lat::norm(lat::cross(lat::sub(b.v[f[i]],b.v[f[0]]),lat::sub(b.v[f[i+1]],b.v[f[0]]))); if(area<1e-7) continue; seen.push_back(u); b.f.push_back(f); b.p.push_back({u,p.d/lat::norm(p.n)}); }
  for(auto& f:b.f) for(size_t i=1;i+1<f.size();++i){ V x=b.v[f[0]],y=b.v[f[i]],z=b.v[f[i+1]]; double w=lat::dot(lat::sub(x,c),lat::cross(lat::sub(y,c),lat::sub(z,c)))/6; b.volume+=w; b.centroid=lat::add(b.centroid,lat::mul(lat::add(lat::add(x,y),lat::add(z,c)),w/4)); }
  if(b.volume<1e-9){ b.volume=0; b.v.clear(); b.f.clear(); b.p.clear(); b.centroid={}; } else b.centroid=lat::mul(b.centroid,1/b.volume);
  return b; }
inline std::vector<Plane> box(double a, double b, double c, V o={0,0,0}){ return {{{1,0,0},o[0]+a},{{-1,0,0},a-o[0]},{{0,1,0},o[1]+b},{{0,-1,0},b-o[1]},{{0,0,1},o[2]+c},{{0,0,-1},c-o[2]}}; }
//! three points of a plane with exactly representable coordinates, anticlockwise seen from outside
inline std::array<V,3> points(const Plane& p){ int i=0; for(int k=0;k<3;++k) if(std::abs(p.n[k])==1){ i=k; break; } V a{}; a[i]=p.d*p.n[i]; int j=(i+1)%3,k=(i+2)%3; V u{},w{}; u[j]=1; u[i]=-p.n[j]*p.n[i]; w[k]=1; w[i]=-p.n[k]*p.n[i]; V b=lat::add(a,u), c=lat::add(a,w); if(lat::dot(lat::cross(lat::sub(b,a),lat::sub(c,a)),p.n)<0) std::swap(b,c); return {a,b,c}; }
}
